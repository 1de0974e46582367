import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    ck = Check("C23", "model_checking", "cases = control sections whose .PKGINFO has any of the known keys, any characters in values, repeated lines, comments and other lines; non-trivial = not only plain words")
    ck.build()
    k = "INIT PInit\nNEXT PNext\nINVARIANT PBack\nPROPERTY PKeeps\nCONSTANTS PVariant = \"%s\"\n PBig = %s\n"
    ck.model_check("PkginfoMC", k % ("ok", "TRUE" if ck.thorough else "FALSE"))
    for v in ("inline", "quotes", "dups", "cont"):
        out, _, _ = ck.tlc("PkginfoMC", k % (v, "FALSE"), expect_ok=False, name="PkginfoMC(%s)" % v)
        if "Invariant PBack is violated" not in out: raise CheckError("the model does not see defect " + v)
    r, T = ck.rng, 10 if ck.thorough else 1
    TX = ["pkgver", "arch", "pkgdesc", "license", "origin", "maintainer", "url", "commit"]
    CH = "ab1 .,:;#\"'`\\=%()[]{}$&!@~^*+-/<>|?_\t" + "\u00e9\u4e16"
    def value():
        u = r.random()
        if u < .25: return r.choice(["1.2.3-r0", "x86_64", "MIT", "A package", "https://h.example/x", "Jane Doe <jane@h.example>"])
        if u < .75: return "".join(r.choice(CH) for _ in range(r.choice([1, 2, 3, 5, 8, 20]))).strip()
        return r.choice(["C# and F# tools; fast", "https://h/x#readme", "https://h/?a=b;c=d", "\"quoted\"", "'q'", "`q`", "\"\"\"", "\"\"\"x", "ends\\", "%(arch)s", "%(pkgname)s %", "a = b", "= x", "[section]", "# x", "; x", "a, b", "a\\nb", "${HOME}", "x" * 300, "", "\"", "a\"", "\\", "a\\", "key: value", "include x", "\ufeffx", "a\rb", "\\r\\n"])
    WCH = "abz019.-_+:@~<>=!/"
    def wd():
        return r.choice(["so:libc.musl-x86_64.so.1", "x", "x", "y", "x>=1.0-r0", "!conflict", "cmd:a=1", "py3.11-x~1.2", "x=1_p#2", "pc:x;1", "a[b]", "\"w\"", "n" * 90, "".join(r.choice(WCH) for _ in range(r.choice([1, 3, 8])))])
    def num(key):
        u = r.random()
        if u < .6: return str(r.choice([0, 1, 7, 4096, 1600000000, 2**31, 2**32, 2**53 + 1, 2**63 - 1]))
        if u < .75: return r.choice(["007", "00", ""])
        if u < .9: return r.choice(["18446744073709551615" if key != "builddate" else "9223372036854775807", "18446744073709551616", "9223372036854775808", "99999999999999999999999", "4294967296000000000000"])
        return r.choice(["-1", "1.5", "0x10", "1e3", "x", "1_000", "1 2", "12k", "+5", "08"])
    cases, seq = [], 0
    for _ in range(5000 * T):
        seq += 1
        name = r.choice(["p%d", "p-%d", "P.%d+x"]) % seq
        ls = [("pkgname", name)]
        for key in TX:
            if r.random() < .6: ls.append((key, value()))
        for key in ("depend", "provides", "replaces", "install_if"):
            if r.random() < .5:
                for _ in range(r.choice([1, 1, 2, 3, 6])):
                    ls.append((key, r.choice([" ", " ", " ", "  ", "\t", " \t "]).join(wd() for _ in range(r.choice([0] + [1, 1, 1, 2, 3] * 4)))))
        for key in ("size", "provider_priority", "builddate"):
            if r.random() < .5: ls.append((key, num(key)))
        if r.random() < .05: ls.append((r.choice(TX), value()))       # repeated, perhaps
        if r.random() < .05: ls.append(("size", num("size")))
        if r.random() < .3: r.shuffle(ls)
        ls = [k + r.choice([" = "] * 6 + ["=", "= ", " =", "  =\t"]) + v for k, v in ls]
        for _ in range(r.choice([0, 0, 1, 2])):
            ls.insert(r.randrange(len(ls) + 1), r.choice(["# Generated by abuild", "#pkgdesc = no", "", "  ", "other = x", "packager = \"a", "triggers = /usr/*", "replaces_priority = 5", "depends = no", "pkgdesc2 = \\", "backup = etc/x", "# \\", "unknown = \"\"\"", "maintainers = `", "install-if = no", "provide = no", "replace = no", "version = 0", "name = no", "pkgdesc.en = no", "pkgname2 = no", "PKGNAME = no", "Pkgver = 9", "installed_size = 9", "description = no", "date = 5", "priority = 4", "depend_x = no", "origin2 = no", "pkg ver = 7"]))
        if r.random() < .7: ls.append("datahash = @DH")
        text = "\n".join(ls) + r.choice(["\n", "\n", "", "\n\n"])
        if r.random() < .05: text = text.replace("\n", "\r\n")
        cases.append(dict(info=text, name=name, signed=r.random() < .5, inst=r.random() < .5))
    res = ck.run_cases("pkginfo", cases)
    recs, src = [], []
    for c, x in zip(cases, res):
        if "ok" not in x:
            if "skipped" not in x: ck.violation("crash", x, c)
            continue
        rec = dict(lines=c["info"].split("\n"), ok=x["ok"], inst=c["inst"], iok=x["iok"])
        for g in ("got", "igot"):
            if g in x: rec[g] = x[g]
        recs.append(rec); src.append((c, x)); ck.distinct.add(c["info"])
    ck.evals = ck.traces = len(recs)
    ck.sample(src[0]); ck.sample(src[-1])
    for i, b in sorted(ck.judge("PkginfoJudge", recs, consts='CONSTANT PVariant = "ok"\n').items()):
        for cl in b: ck.violation(cl, src[i][1], src[i][0])
    ck.assumptions += ["of a repeated key that is no list the first counts", "lines without '=' are ignored", "numbers with other characters than digits may be refused or read as 0"]
    ck.finish(installed=sum(1 for q in recs if q["iok"]))
main(run)
