import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def tg(t): return ("/" if t["abs"] else "") + "/".join(t["p"])

def run():
    ck = Check("C15", "model_checking",
      "cases = roots with links that lead out of them, read and changed through every operation under paths that climb, jump and spell oddly; installations of packages with hostile entries; indexes, keys and packages cached under hostile URLs, entity tags and names; non-trivial = a path, entry, URL or tag with '..', an absolute part or a link")
    ck.build()
    k = "CONSTANTS NVariant = \"%s\"\n NLen = %d\n NGen = %s\n"
    ck.model_check("ContainMC", "INIT NInit\nNEXT NNext\nINVARIANTS Inside Agrees\n" + k % ("ok", 4 if ck.thorough else 3, "FALSE"), timeout=800)
    for v in ("oslinks", "abslinks", "parent"):
        out, _, _ = ck.tlc("ContainMC", "INIT NInit\nNEXT NNext\nINVARIANT Inside\n" + k % (v, 2, "FALSE"), expect_ok=False, name="ContainMC(%s)" % v)
        if "Invariant Inside is violated" not in out: raise CheckError("the model does not see defect " + v)
    for v in ("noclean", "rawtag"):
        out, _, _ = ck.tlc("ContainMC", "INIT NInit\nNEXT NoNext\n" + k % (v, 2, "FALSE"), expect_ok=False, name="ContainMC(%s)" % v)
        if "CacheInside" not in out and "Assumption" not in out: raise CheckError("the model does not see defect " + v)
    out, _, _ = ck.tlc("ContainMC", "INIT NInit\nNEXT NoNext\nINVARIANT Generate\n" + k % ("ok", 3, "TRUE"), workers=1)
    gens = [g for g in printed(out, "GEN") if "L" in g["p"] or "M" in g["p"] or ".." in g["p"]]
    if len(gens) < 10000: raise CheckError("nothing generated")
    r, T = ck.rng, 8 if ck.thorough else 1
    r.shuffle(gens)
    cases, meta = [], []
    def add(c, g=None):
        c = dict(dict(fold=False, cache=False, pre=[], late=False, ops=[]), **c)
        cases.append(c); meta.append(g)
    D = lambda p: dict(p=p, k="dir", c="")
    F = lambda p, c="in": dict(p=p, k="file", c=c)
    L = lambda p, c: dict(p=p, k="link", c=c)
    def spell(p):
        u = r.random()
        if u < .5: return p
        return r.choice(["/" + p, "./" + p, "//" + p, p + "/.", "../" + p, "/../../" + p, p.replace("/", "//"), "/./" + p])
    for g in gens[:3000 * T]:
        pre = [D("a"), D("W/out"), F("f"), F("a/f"), L("L", tg(g["l"])), L("a/M", tg(g["m"]))]
        p = "/".join(g["p"])
        add(dict(pre=pre, late=r.random() < .5, ops=[dict(o="look", p=r.choice([p, p, "/" + p, "./" + p]))]), g)
    # a root full of ways out
    OUTS = ["../out", "../../W/out", "@W/out", "@W/out/f", "../out/f", "..", "../..", "/", "@W", "../base-evil", "../f", "@W/base/../out", "../out/a", "a/../../out", "x/../../out/empty", "../out/new", "@W/new", "../base-evil/f", "/../../W/out", "../base"]
    def links():
        pre = [D("a"), D("etc"), F("a/f")]
        pre += [L(n, r.choice(OUTS)) for n in ("L", "M", "a/L", "K")]
        pre += [L("N", r.choice(["L", "L/a", "M/../out", "N", "a/L/a"]))]
        return pre
    def path():
        n = r.choice([1, 1, 2, 3, 4])
        p = [r.choice(["L", "M", "K", "N", "a", "..", ".", "", "f", "L", "out", "new", "base-evil", "W"]) for _ in range(n)]
        p.append(r.choice(["f", "a", "zzmark", "new", "L", "..", "empty", "zzlink", "zzmark"]))
        return r.choice(["", "", "/", "../", "@W/", "@W/out/", "//"]) + "/".join(p)
    def rpath():
        return path()
    def wpath():
        return path().replace("zzmark", "made").replace("zzlink", "made")
    def fsop():
        o = r.choice(["readall", "readall", "write", "create", "open", "mkdir", "mkdirall", "remove", "symlink", "link", "chmod", "chown", "mknod", "setx", "rmx"])
        d = dict(o=o, p=rpath() if o in ("readall", "remove", "chmod", "chown") else wpath(), c="new", n=0)
        if o == "write": d["n"] = r.choice([0o644, 0o400])
        if o == "open": d["n"] = r.choice([os.O_RDWR, os.O_RDWR | os.O_CREAT, os.O_RDWR | os.O_CREAT | os.O_EXCL, os.O_WRONLY | os.O_TRUNC, os.O_WRONLY | os.O_CREAT | os.O_APPEND])
        if o in ("mkdir", "mkdirall"): d["n"] = r.choice([0o755, 0o700])
        if o == "chmod": d["n"] = r.choice([0o600, 0o755, 0o777])
        if o == "symlink": d["q"] = r.choice(OUTS + ["f", "L", "/etc"])
        if o == "link": d["q"] = r.choice([path(), "../out/f", "@W/out/f", "L/f", "L", "M", "../f", "/../f", "a/../../f"])
        return d
    # every operation through one link
    for out_ in OUTS:
        for o, q, n in [("readall", "", 0), ("write", "", 0o644), ("create", "", 0), ("open", "", os.O_RDWR | os.O_CREAT), ("open", "", os.O_WRONLY | os.O_TRUNC), ("mkdir", "", 0o755), ("mkdirall", "", 0o755), ("remove", "", 0),
                        ("symlink", "x", 0), ("link", "a/f", 0), ("chmod", "", 0o777), ("chown", "", 0), ("mknod", "", 0), ("setx", "", 0), ("rmx", "", 0)]:
            for p in ("L", "L/f", "L/new", "a/../L/a/new", "../L/empty"):
                add(dict(pre=[D("a"), F("a/f"), L("L", out_)], late=r.random() < .5, fold=r.random() < .15, ops=[dict(o=o, p=p, q=q, c="new", n=n), dict(o="readall", p="L"), dict(o="readall", p="L/zzmark")]))
        add(dict(pre=[D("a"), L("L", out_)], late=r.random() < .5, ops=[dict(o="link", p="got", q=r.choice(["L", "L/f", "../out/f", "@W/out/f"])), dict(o="readall", p="got"), dict(o="tar")]))
    for _ in range(2500 * T):
        ops = [fsop() for _ in range(r.choice([1, 2, 4, 8]))]
        if r.random() < .2: ops.insert(r.randrange(len(ops) + 1), dict(o="reopen"))
        if r.random() < .3: ops.append(dict(o="tar"))
        add(dict(pre=links() if r.random() < .8 else [], late=r.random() < .4, fold=r.random() < .15, ops=ops))
    # the database, the world, the keys, and packages over such a root
    def pre2():
        pre = []
        for d in r.sample(["etc", "lib", "usr", "dev", "tmp", "var", "lib/apk", "etc/apk", "etc/apk/keys", "lib/apk/db", "etc/apk/world", "etc/apk/repositories", "lib/apk/db/installed", "lib/apk/db/scripts.tar", "lib/apk/db/triggers", "etc/apk/arch"], r.choice([1, 1, 2])):
            up = os.path.dirname(d)
            if up and r.random() < .9: pre.append(D(up))
            pre.append(L(d, r.choice(OUTS + ["../out/" + os.path.basename(d), "@W/out/keys", "../../../../out/keys", "../../../../../out/triggers", "@W/out/triggers"])))
        seen = set(); res = []
        for x in pre:
            if x["p"] in seen: continue
            if any(y["k"] == "link" and x["p"].startswith(y["p"] + "/") for y in res) or any(y["p"].startswith(x["p"] + "/") for y in res): continue
            seen.add(x["p"]); res.append(x)
        return res
    HOST = ["../x", "../../out/x", "/abs", "@W/out/x", "a/../../x", "../base-evil/x", "..", ".", "", "/", "L/x", "L/f", "a//../..//x", "./../x", "..\\x", "a/..", "L", "L/a/x", "usr/../../../x"]
    def ent():
        k = r.choice(["dir", "reg", "reg", "link", "link", "hard"])
        e = dict(p=[x for x in r.choice(["a", "a/b", "L", "L/x", "M/f", "x"]).split("/")], k=k, c="", perm=0o755, tg=[])
        if r.random() < .6: e["raw"] = r.choice([h for h in HOST if k == "dir" or not h.endswith("/")])
        if k == "reg": e["c"] = "data"
        if k == "link": e["c"] = r.choice(OUTS)
        if k == "hard": e["tg"] = r.choice(["../out/f", "../f", "@W/out/f", "L/f", "L", "a/../../f", "/../f"]).split("/")
        return e
    def pkg(i):
        sc = [dict(n=r.choice([".pre-install", "../../x", "/abs", "../../../out/x", ".post-install/../../x"]), c="#!", t=0) for _ in range(r.choice([0, 0, 1]))]
        extra = [r.choice(["datahash = ../../../../out/f", "datahash = ", "origin = ../x"])] if r.random() < .3 else []
        return dict(name=r.choice(["p%d" % i, "../x", "../../out/x", "a/b"]), ver=r.choice(["1", "../2", "1/../../x"]), org="", repl=[], es=[ent() for _ in range(r.choice([1, 2, 3, 6]))], sc=sc, tr=[r.choice(["/..", "../../out"])] if r.random() < .3 else [],
                    extra=extra, signed=r.random() < .5, nohash=bool(extra) or r.random() < .2, nosum=r.random() < .5, bad=r.choice(["", "", "nosum"]))
    SEG = ["..", ".", "", "x", "%2e%2e", "%2f", "%2e%2e%2fout", "a%2f..%2f..%2fout", "\\..", "out", "...", "x86_64", "~", "%00", "*", "a b", "%252e%252e"]
    def url(last):
        h = r.choice(["h@I.example", "h@I.example:8080", "..", "u:..@h@I.example", "h@I.example/..", "%2e%2e", "h@I.example//", "h@I.example?q=/../..", "h@I.example#/../.."])
        q = r.choice(["", "", "", "?a=../../x", "#/../../x", "?", "#"])
        l = last() if callable(last) else last
        return r.choice(["https://", "https://", "http://"]) + h + "/" + "/".join([r.choice(SEG) for _ in range(r.choice([0, 1, 2, 3, 5]))] + ([l] if l is not None else [])) + q
    TAGS = ['"../../../../out/new"', '"../x"', '"/abs"', '"@W/out/f"', '".."', '"."', '""', 'x', '"a/../../../b"', '"%2e%2e%2fx"', '"..%2f..%2fx"', '"' + "../" * 90 + 'x"', '"x\\..\\y"', 'W/"../../x"', '"' + "n" * 400 + '"', '"\\u0000"', '"x.tmp"', '"../APKINDEX/y"', "'..'", '"//"']
    def netop():
        o = r.choice(["index", "keys", "install", "keys"])
        tag = [r.choice(TAGS)] * 2 if r.random() < .7 else [r.choice(TAGS), r.choice(TAGS)]
        if r.random() < .1: tag = []
        d = dict(o=o, tag=tag, off=r.random() < .15, urls=[])
        n = r.choice([1, 2, 3])
        if o == "index": d["urls"] = [url(None) for _ in range(n)]; d["arch"] = r.choice(["x86_64", "..", "../..", "../../../out", "a/../../b", "", "%2e%2e"])
        if o == "keys": d["urls"] = [url(lambda: r.choice(["k.pub", "..", "k.rsa.pub", "../k.pub", "%2e%2e", "..%2f..%2fk", "", "..pub", "@..", ".", "APKINDEX.tar.gz"])) for _ in range(n)]
        if o == "install":
            d["pk"] = [dict(pkg(i)) for i in range(n)]
            d["urls"] = [url(lambda: r.choice(["p%d.apk" % i, "../p%d.apk" % i, "..%%2fp%d.apk" % i, "..apk", ".apk", "x%%2f..%%2f..%%2fp%d.apk" % i, "...apk"])) for i in range(n)]
        return d
    for _ in range(1500 * T):
        pre = pre2() if r.random() < .7 else links()
        ops = [dict(o=r.choice(["initdb", "world", "repos", "getinstalled"])) for _ in range(r.choice([0, 1, 2, 3]))]
        if r.random() < .6: ops.insert(0, dict(o="initdb"))
        for _ in range(r.choice([0, 1, 2])): ops.append(dict(o="install", pk=[pkg(i) for i in range(r.choice([1, 2, 3]))]))
        if r.random() < .3: ops.append(dict(o="keys", urls=[r.choice(["https://k@I.example/k.pub", "@W/out/zzmark.rsa.pub"][:1])], tag=[]))
        ops += [dict(o="readall", p=rpath()), dict(o="tar")][:r.choice([0, 1, 2])]
        add(dict(pre=pre, late=r.random() < .4, fold=r.random() < .1, cache=r.random() < .4, ops=ops))
    for _ in range(2500 * T):
        pre = [D("etc/apk/keys"), D("lib/apk/db"), F("lib/apk/db/installed", ""), F("lib/apk/db/scripts.tar", ""), F("lib/apk/db/triggers", "")] if r.random() < .9 else pre2()
        add(dict(pre=pre, cache=r.random() < .93, ops=[netop() for _ in range(r.choice([1, 1, 2, 3]))]))
    res = ck.run_cases("contain", cases, as_user=True, case_timeout=60)
    recs, src, ok = [], [], 0
    for c, x, g in zip(cases, res, meta):
        if "changed" not in x:
            if "skipped" not in x: ck.violation("nofs" if x.get("nofs") else "crash", x, c)
            continue
        rec = dict(changed=x["changed"], seen=x["seen"], gen=g is not None, found=x["found"])
        if g: rec.update(l=g["l"], m=g["m"], p=g["p"])
        recs.append(rec); src.append(c); ok += x["oks"]
        ck.distinct.add(json.dumps(c))
    ck.sample(dict(case=src[0], result=recs[0])); ck.sample(dict(case=src[-1], result=recs[-1]))
    ck.evals = ck.traces = len(recs)
    for i, b in sorted(ck.judge("ContainJudge", recs, consts='CONSTANT NVariant = "ok"\n').items()):
        for cl in b: ck.violation(cl, recs[i], src[i])
    ck.assumptions += ["runs as an unprivileged user; a read of a file outside shows in its contents, size or name", "nobody else changes the directory while it is used",
                       "temporary files in the system's temporary directory and local files the caller names (key and package paths) are not 'outside'"]
    ck.finish(operations_that_succeeded=ok)
main(run)
