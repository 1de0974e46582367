import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from instgen import Gen

SYS = (("openat", 40), ("write", 60), ("rename,renameat,renameat2", 9), ("mkdirat,mkdir", 6), ("close", 50), ("newfstatat,fstat", 40), ("unlinkat,unlink,rmdir", 8), ("fchmod,fchmodat", 4), ("read,pread64", 60))

def run():
    ck = Check("C10", "model_checking",
      "cases = histories of processes installing packages through shared cache directories, killed at the N-th system call of a kind or after N downloaded bytes, with failing writes, cut downloads, cancellation, two processes or several users at a time, files removed from the cache, another package at the same URL; non-trivial = a process died or failed, or installed without the network")
    ck.build()
    consts = "CONSTANTS CProcs = {%s}\n CShared = %s\n CVariant = \"%s\"\n CMaxRuns = %d\n"
    inv = "INVARIANTS Complete Usable Kept FailsOnlyDown\n"
    for shared in ("TRUE", "FALSE"):
        ck.model_check("PkgCache", "SPECIFICATION CSpec\n" + inv + "PROPERTY Ends\n" + consts % ("1", shared, "ok", 4), name="PkgCache(1,%s)" % shared)
        ck.model_check("PkgCache", "SPECIFICATION CSpec\n" + inv + ("PROPERTY Ends\n" if ck.thorough else "") + consts % ("1, 2", shared, "ok", 6 if ck.thorough else 4), name="PkgCache(2,%s)" % shared, timeout=800)
    for v, i in (("ctlfirst", "Usable"), ("siglast", "Complete"), ("inplace", "Complete"), ("direct", "Complete")):
        out, _, _ = ck.tlc("PkgCache", "INIT CInit\nNEXT CNext\n" + inv + consts % ("1, 2", "TRUE", v, 4), expect_ok=False, name="PkgCache(%s)" % v)
        if "is violated" not in out: raise CheckError("the model does not see defect " + v)
    r, T = ck.rng, 8 if ck.thorough else 1
    try:
        trace_ok = subprocess.run(["strace", "-qq", "-o", "/dev/null", "true"], capture_output=True, timeout=20).returncode == 0
    except Exception:
        trace_ok = False
    if not trace_ok: ck.assumptions.append("strace is not usable here: crash points are explored through downloaded bytes and write limits only")
    def whole(f):
        """Entries that can be installed: every directory is there."""
        while True:
            es = f()
            if all(len(e["p"]) == 1 or any(d["k"] == "dir" and d["p"] == e["p"][:-1] for d in es[:i]) for i, e in enumerate(es)): return es
    def pkgs():
        """A few packages; some are other packages under the URL of another one."""
        out = []
        for k in range(r.choice([1, 1, 2, 3])):
            g = Gen(r, "mem")
            es = whole(lambda: g.tree("p%d" % k, r.choice([3, 6])))
            if r.random() < .4: es.append(g.entry("big%d" % k, "reg", c="contents%d*%d" % (k, r.choice([9000, 30000])), perm=0o644))
            p = g.pkg("p%d" % k, es, local=False)
            url = "https://%s/%s/x86_64/p%d.apk" % (r.choice(["a.example", "b.example", "u:pw@c.example"]).replace("u:pw@", ""), r.choice(["r", "deep/er/repo", "r%20x"]).replace("%20", "-"), k)
            out.append(dict(p=p, url=url, pro=r.random() < .93))
            p["nohash"] = r.random() < .06
            if r.random() < .5:
                q = dict(p, ver="9-r%d" % k, **r.choice([{}, {"es": whole(lambda: g.tree("q%d" % k, 4))}, {"signed": not p["signed"]}, {"sc": g.scripts()}]))
                out[-1]["pro"] = True       # without a promise, whatever comes is right
                out.append(dict(p=q, url=url, pro=True))
        return out
    def want(ps):
        byurl = {}
        for i, p in enumerate(ps): byurl.setdefault(p["url"], []).append(i)
        l = [r.choice(v) for v in byurl.values()]
        r.shuffle(l)
        return l[:r.choice([1, 2, 3, 3])]
    def ins(ps, **k):
        d = dict(pk=want(ps), serve=[], down=False, off=False, objs=1, fault="none", sys="", n=0, dir=0, layout=r.choice(["mem", "mem", "mem", "dir"]))
        d.update(k)
        return d
    def fault(big=True):
        u = r.random()
        if u < .4 and trace_ok:
            s, m = r.choice(SYS); return dict(fault="kill", sys=s, n=r.randrange(1, m + 1))
        if u < .6: return dict(fault="bytes", n=r.choice([0, 1, 300, 700, 1000, 1500, 2500, 5000, r.randrange(1, 40000)]))
        if u < .75: return dict(fault=r.choice(["cap", "capign"]), n=r.choice([0, 1, 100, 300, 512, 600, 1000, 1024, 3000, 10240, r.randrange(1, 40000), r.randrange(1, 400000)]), layout="mem")
        if u < .88: return dict(fault="cancel", n=r.choice([0, 700, 1400, r.randrange(1, 10000)]))
        return dict(fault="cut", n=r.choice([0, 1, 200, 700, r.randrange(1, 20000)]))
    def step(*kids, clean=(), how="all"): return dict(clean=list(clean), how=how, seed=r.randrange(1 << 30), kids=[list(k) for k in kids])
    def net(): return r.choice([dict(off=True), dict(down=True)])
    cases = []
    def close(ps, l, d=0):
        """A run that has the network, then one that has not."""
        return [step([ins(ps, pk=l, dir=d)]), step([ins(ps, pk=l, dir=d, layout="mem", **net())])]
    # every crash point of the first run, of one signed and one unsigned package
    if trace_ok:
        for s, m in SYS:
            for n in range(1, m + 1):
                if s[0] in "ocnr" and s[:6] != "rename" and n > 12 and r.random() < (.0 if ck.thorough else .6): continue
                ps = pkgs(); l = want(ps)
                first = r.choice([[], [], [step([ins(ps)])]])
                cl = r.choice([dict(), dict(), dict(clean=[0], how=r.choice(["tar", "tar", "some"]))]) if first else {}
                cases.append(dict(pkgs=ps, dirs=1, steps=first + [step([ins(ps, pk=l, fault="kill", sys=s, n=n)], **cl)] + close(ps, l)))
    # one signed package: new to the cache, without its uncompressed data, beside another version with the same data, or in part
    def scenario(k):
        while True:
            ps = pkgs()
            p = dict(ps[0]["p"], signed=True, nohash=False)
            if any(e["k"] == "reg" and e["c"] for e in p["es"]): break
        url = ps[0]["url"]
        ps = [dict(p=p, url=url, pro=True), dict(p=dict(p, ver="7-r7"), url=url, pro=True)]
        one = dict(pk=[0], layout="mem")
        pre, cl = {"new": ([], {}), "tar": ([step([ins(ps, **one)])], dict(clean=[0], how="tar")), "shared": ([step([ins(ps, pk=[1], layout="mem")])], {}),
                   "some": ([step([ins(ps, **one)])], dict(clean=[0], how="some"))}[k]
        return ps, one, pre, cl
    for k in ("new", "tar", "shared", "some"):
        points = [dict(fault=f, n=n) for f in ("cap", "capign") for n in (0, 1, 512, 600, 1500, 2048)] + [dict(fault="bytes", n=n) for n in (1, 700, 1400)]
        if trace_ok:
            points += [dict(fault="kill", sys=s, n=n) for s, m in (("rename,renameat,renameat2", 5), ("write", 4 if k == "tar" else 10), ("openat", 14), ("close", 10), ("fchmod,fchmodat", 2), ("unlinkat,unlink,rmdir", 3)) for n in range(1, m + 1)]
            points += [dict(fault="kill", sys="rename,renameat,renameat2", n=n) for n in range(1, 5)] * (4 * T)
        for f in points:
            ps, one, pre, cl = scenario(k)
            cases.append(dict(pkgs=ps, dirs=1, steps=pre + [step([ins(ps, **dict(one, **f))], **cl)] + close(ps, [0]) + close(ps, [1])))
    for n in list(range(0, 4000, 130 if not ck.thorough else 20)):
        ps = pkgs(); l = want(ps)
        cases.append(dict(pkgs=ps, dirs=1, steps=[step([ins(ps, pk=l, fault="bytes", n=n)])] + close(ps, l)))
        ps = pkgs(); l = want(ps)
        cases.append(dict(pkgs=ps, dirs=1, steps=[step([ins(ps, pk=l, fault=r.choice(["cap", "capign"]), n=n, layout="mem")])] + close(ps, l)))
    # histories
    for _ in range(220 * T):
        ps = pkgs(); dirs = r.choice([1, 1, 2]); steps = []
        for _ in range(r.choice([2, 3, 4, 6])):
            d = r.randrange(dirs)
            kids = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                f = fault() if r.random() < .35 else {}
                x = ins(ps, dir=d, **f)
                u = r.random()
                if u < .2: x.update(net()); 
                elif u < .4: x["serve"] = [r.choice([-1, i] + [k for k, p in enumerate(ps) if p["url"] == ps[i]["url"]]) for i in x["pk"]]
                if r.random() < .2: x["objs"] = r.choice([2, 4])
                kids.append([x])
            if len(kids) == 1:
                for _ in range(r.choice([0, 0, 1, 2])):
                    y = ins(ps, dir=r.randrange(dirs), objs=r.choice([1, 1, 3]), **(dict(layout="mem") if kids[0][0]["fault"] in ("cap", "capign") else {}))
                    if r.random() < .4: y.update(net())
                    elif r.random() < .4: y["serve"] = [r.choice([-1, i] + [k for k, p in enumerate(ps) if p["url"] == ps[i]["url"]]) for i in y["pk"]]
                    kids[0].append(y)
            cl = dict(clean=[d], how=r.choice(["tar", "some", "some", "all"])) if r.random() < .3 else {}
            steps.append(step(*kids, **cl))
        l = want(ps)
        cases.append(dict(pkgs=ps, dirs=dirs, steps=steps + close(ps, l, r.randrange(dirs))))
    res = ck.run_cases("pkgcache", cases, as_user=True, case_timeout=200, total_timeout=800)
    recs, src, n = [], [], {}
    for c, x in zip(cases, res):
        if "steps" not in x:
            if "skipped" not in x: ck.violation("crash", x, c)
            continue
        recs.append(x); src.append(c)
        for s in x["steps"]:
            for o in s["runs"]:
                k = "%s, %s, %s" % ("network" if o["up"] else "no network", "disturbed" if o["fault"] else "undisturbed", "died" if o["died"] else "installed" if o["ok"] else "failed"); n[k] = n.get(k, 0) + 1
        if any(o["died"] or not o["ok"] or (o["ok"] and not o["up"]) for s in x["steps"] for o in s["runs"]): ck.distinct.add(json.dumps(c))
    ck.sample(recs[0]); ck.sample(recs[-1])
    ck.traces = len(recs); ck.evals = sum(n.values())
    for i, b in sorted(ck.judge("PkgCacheJudge", recs).items()):
        for cl in b: ck.violation(cl, recs[i], src[i])
    ck.assumptions += ["the file system keeps what was written when a process dies (not the machine)", "a package's signature section is not removed from the cache on its own",
                       "what is right is what an installation without a cache gives (C04, C05 and C09 judge that)"]
    ck.finish(runs=n)
main(run)
