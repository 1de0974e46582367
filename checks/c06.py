import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import base64

def run():
    ck = Check("C06", "model_checking",
      "cases = a sequence of packages with metadata and file headers recorded and read back, in memory and on disk, and database texts mutated line by line; non-trivial = at least one file recorded or package read")
    ck.build()
    cfg = "INIT DInit\nNEXT DNext\nINVARIANTS %s\nCONSTANTS DMax=%d DVariant=\"%s\"\n"
    ck.model_check("InstalledMC", cfg % ("RoundTrip", 1, "ok"))
    ck.model_check("InstalledMC", cfg % ("RoundTrip CutPrefix", 2 if ck.thorough else 1, "ok"), timeout=800)
    for v in ("noroot", "lowbits"):
        out, _, _ = ck.tlc("InstalledMC", cfg % ("RoundTrip", 1, v), expect_ok=False, name="InstalledMC(%s)" % v)
        if "Invariant RoundTrip is violated" not in out: raise CheckError("the model does not see " + v)
    r, T = ck.rng, 10 if ck.thorough else 1
    w = lambda: "".join(r.choice("abcxyz019.-_+:=<>~!@/") for _ in range(r.randrange(1, 9)))
    words = lambda: [w() for _ in range(r.choice([0, 0, 1, 2, 5]))]
    text = lambda: r.choice(["", "", "text", "a b  c", "x:y", "P:fake", " lead", "trail ", "#;'\"\\ {{.Name}} <&>%s", "ünïcödé", "tab\there", "é" * 50])
    num = lambda: r.choice(["0", "0", str(r.randrange(1, 2**r.randrange(1, 64))), "18446744073709551615"])
    def pkg(n):
        return {"name": r.choice(["p%d" % n, w()]), "ver": r.choice(["1.2-r0", "", w()]), "arch": text(), "desc": text(), "lic": text(), "org": text(), "maint": text(), "url": text(),
                "sum": r.choice(["", "Q1" + base64.b64encode(bytes(r.randrange(256) for _ in range(r.choice([20, 20, 1, 33])))).decode()]), "deps": words(), "prov": words(), "iif": words(), "repl": words(),
                "size": num(), "isize": num(), "prio": num(), "t": r.choice(["0", "1", str(r.randrange(2**33)), "-5"]), "commit": text()}
    NM = ["a", "b", "c", "usr", "lib", "bin", "a b", "ü", "x" * 90, ".h", "A", "a:b", "R:x", "...", "etc", "-", "a.b", "zz"]
    def headers():
        dirs, hs = [[]], []
        full = r.random() < .6       # every directory has a header
        for _ in range(r.choice([0, 1, 3, 6, 12, 30])):
            p = r.choice(dirs) + [r.choice(NM) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            if r.random() < .08: p = r.choice(dirs) or p
            d = r.random() < .4
            if any(not h["d"] and p[:len(h["p"])] == h["p"] and len(p) > len(h["p"]) for h in hs): continue       # below a file
            if any(h["p"][:len(p)] == p and (not d or not h["d"] or r.random() < .7) for h in hs): continue
            if full:
                for n in range(1, len(p)):
                    if p[:n] not in [h["p"] for h in hs]: hs.append(dict(p=p[:n], d=True, uid=0, gid=0, perm=r.choice([0o755, 0o755, 0o700])))
            hs.append(dict(p=p, d=d, uid=r.choice([0, 0, 1, 65534, 2000000]), gid=r.choice([0, 0, 5, 70000]), perm=r.choice([0o755, 0o644, 0o600, 0o4755, 0o1777, 0o2711, 0, 0o7777]), sum=r.choice(["", "", "Q1" + "A" * 27 + "=", "00ff" * 10])))
            if not d: hs[-1]["type"] = r.choice(["", "", "link", "hard", "fifo"])
            if d: dirs.append(p)
        for h in hs:
            s = "/".join(h["p"]); u = r.random()
            if h["d"]: h["raw"] = s + "/" if u < .7 else ("./" + s if u < .8 else s)
            elif u < .1: h["raw"] = r.choice(["./", "/"]) + s
        if r.random() < .5: r.shuffle(hs)
        if r.random() < .1: hs.insert(0, dict(p=[], d=True, uid=0, gid=0, perm=0o755, raw=r.choice(["./", "."])))
        return hs
    cases = []
    for i in range(2500 * T):
        n = r.choice([1, 1, 2, 3, 5])
        cases.append(dict(kind="rt", fs="mem", log=[dict(pk=pkg(k), hs=headers()) for k in range(n)], reopen=r.choice([-1, r.randrange(n)])))
    user = []
    for i in range(100 * T):
        n = r.choice([1, 2, 3, 5])
        user.append(dict(kind="rt", fs="dir", log=[dict(pk=pkg(k), hs=headers()) for k in range(n)], reopen=r.choice([-1, r.randrange(n)])))
    LN = ["P:a", "P:b", "P:", "V:1", "D:x y", "D:", "p:x  y", "i:u v", "r:q", "r:", "i:", "p:", "S:12", "S:x", "S:-1", "S:18446744073709551616", "t:-7", "t:", "k:3", "k:", "I:5", "C:Q1YWJj", "C:Q1!", "Z:Q1AA==",
          "F:usr", "F:usr/bin", "F:", "F:usr//lib/", "R:x", "R:y z", "R:.", "M:0:0:0755", "M:7:8:1777", "M:1:2", "M:a:b:c", "M:0:0:0999", "M::0:755", "a:1:2:0644", "a:0:0:4755", "a:1", "a:x:0:644", "M:0:0:", "x", "P", ":", "::", "T:a:b", "no colon", "é", "éx:", "c:1 2", " ", "T:@LONG@", "p:@LONG@ y"]
    for i in range(4000 * T):
        ls = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            blk = [r.choice(LN[:-2] if r.random() < .98 else LN) if r.random() < .25 else r.choice(["V:1", "F:usr", "R:x", "R:y", "F:b", "M:1:2:0700", "a:3:4:0600", "Z:Q1AA==", "D:x", "I:5"]) for _ in range(r.randrange(0, 9))]
            if r.random() < .85: blk.insert(r.randrange(len(blk) + 1), "P:" + r.choice("abc"))
            ls += blk + [""] * r.choice([1, 1, 1, 2])
        if r.random() < .3:
            while ls and ls[-1] == "": ls.pop()
        long = r.choice([70000, 200000, 1100000]) if any("@LONG@" in x for x in ls) else 0
        cases.append(dict(kind="parse", text="\n".join(ls) + ("\n" if r.random() < .7 else ""), long=long))
    # a long database: no limit to the number of packages or the length of lines may cut it
    for n, long in ((2, 65530), (2, 65536), (2, 131072), (3, 5000000), (400, 0)):
        cases.append(dict(kind="parse", text="".join("P:p%d\nD:@LONG@\nF:usr\nR:x\na:1:2:0600\n\n" % i for i in range(n)), long=long or 10))
    res = ck.run_cases("idb", cases, case_timeout=60) + ck.run_cases("idb", user, case_timeout=60, as_user=True)
    recs, src = [], []
    for c, x in zip(cases + user, res):
        if "ok" not in x:
            if "skipped" not in x: ck.violation("crash", x, c)
            continue
        if c["kind"] == "rt":
            log = [dict(pk=l["pk"], hs=[{k: h[k] for k in ("p", "d", "uid", "gid", "perm")} for h in l["hs"]]) for l in c["log"]]
            rec = dict(kind="rt", log=log, ok=x["ok"], addok=x["addok"], got=x["got"], lines=x["text"].split("\n"))
            if any(l["hs"] for l in log): ck.distinct.add(json.dumps(c))
        else:
            rec = dict(kind="parse", lines=c["text"].split("\n"), ok=x["ok"], got=x["got"])
            if x["got"]: ck.distinct.add(c["text"])
        recs.append(rec); src.append((c, x))
    ck.sample(next((x for x in recs if x["kind"] == "rt"), None)); ck.sample(next((x for x in recs if x["kind"] == "parse" and x["got"]), None))
    ck.evals = ck.traces = len(recs)
    for i, b in sorted(ck.judge("InstalledJudge", recs, consts="CONSTANT DVariant = \"ok\"\n", chunk=3500).items()):
        for cl in b: ck.violation(cl, {"err": src[i][1]["err"], "got": recs[i]["got"], "lines": recs[i]["lines"][:60], "log": recs[i].get("log")}, src[i][0])
    ck.assumptions += ["names and values contain no line break; names of entries are plain (no '..')"]
    ck.finish()
main(run)
