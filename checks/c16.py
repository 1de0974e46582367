import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    ck = Check("C16", "model_checking",
      "cases = one tree (in memory, on disk, with inode numbers) written with one set of options, whole or with a failing writer or file; non-trivial = a tree with at least two entries")
    ck.build()
    cfg = "INIT TInit\nNEXT TNext\nINVARIANTS %s\nCONSTANTS TPaths=%d TVariant=\"%s\"\n"
    ck.model_check("TarMC", cfg % ("Once Parents Faithful OneBody Exact", 4, "ok"))
    out, _, _ = ck.tlc("TarMC", cfg % ("OneBody", 4, "nohard"), expect_ok=False, name="TarMC(nohard)")
    if "Invariant OneBody is violated" not in out: raise CheckError("the model does not see two bodies")
    out, _, _ = ck.tlc("TarMC", cfg % ("GenPrint", 4, "ok"), workers=1, name="TarMC(gen)")
    gen = list(printed(out, "GEN"))
    r, T = ck.rng, 8 if ck.thorough else 1
    def opt(**k):
        o = dict(sde=0, ouid=False, uid=0, gid=0, uname="", gname="", perms=[], ru=[], rg=[], users=[], groups=[], sums=False); o.update(k); return o
    NAMES = ["a", "b", "c", "usr", "bin", "a b", "ü", "x" * 101, "-", ".hidden", "a.b", "A"]
    def tree():
        es, dirs, n = [], [[]], r.choice([0, 1, 2, 4, 8, 15])
        ids = [0, 1, 65534, 70000, 2097152, 3000000]
        for i in range(n):
            p = r.choice(dirs) + [r.choice(NAMES)]
            if any(e["p"] == p for e in es): continue
            k = r.choice(["dir", "dir", "file", "file", "file", "link", "dev"])
            e = dict(p=p, k=k, perm=r.choice([0o644, 0o755, 0o600, 0o4755, 0o1777, 0]) if k != "link" else 0o777, uid=r.choice(ids), gid=r.choice(ids), data=[], tg="", maj=0, min=0, x=[], ino=0)
            if k == "link": e.update(uid=0, gid=0, tg=r.choice(["a", "../b", "/abs", "y" * 120, "ü"]))
            if k == "file": e["data"] = [r.randrange(1, 255) for _ in range(r.choice([0, 1, 3, 600]))]
            if k == "dev": e.update(maj=r.choice([1, 5, 300]), min=r.choice([3, 9, 70000]))
            if k in ("file", "dir", "dev") and r.random() < .3: e["x"] = [["user.%d" % j, [r.randrange(256) for _ in range(r.choice([0, 1, 4]))]] for j in range(r.choice([1, 2]))]
            if k == "dir": dirs.append(p)
            es.append(e)
            if k != "dir" and r.random() < .3:
                e["ino"] = 100 + i
                for _ in range(r.choice([1, 2])):
                    q = r.choice(dirs) + [r.choice(NAMES)]
                    if not any(f["p"] == q for f in es): es.append(dict(e, p=q))
        return es
    def ropt(es):
        o = opt(sde=r.choice([0, 1, 1234567890, 4102444800 // 2]), sums=r.random() < .3)
        if r.random() < .3: o.update(ouid=True, uid=r.choice([0, 5, 65532]), gid=r.choice([0, 6]))
        if r.random() < .2: o["uname"] = "ow"
        if r.random() < .2: o["gname"] = "gr"
        ids = sorted({e[k] for e in es for k in ("uid", "gid")} | {0, 9})
        if r.random() < .3: o["ru"] = [[i, r.choice(ids + [77])] for i in r.sample(ids, min(2, len(ids)))]
        if r.random() < .3: o["rg"] = [[i, r.choice(ids + [77])] for i in r.sample(ids, min(2, len(ids)))]
        if r.random() < .5: o["users"] = [[i, "u%d" % i] for i in ids + [77] if r.random() < .7]
        if r.random() < .5: o["groups"] = [[i, "g%d" % i] for i in ids + [77] if r.random() < .7]
        if r.random() < .5:
            for e in r.sample(es, min(len(es), r.choice([1, 2]))):
                for nm in r.choice([["/"], [""], ["", "/"]]):
                    o["perms"].append(dict(name=nm + "/".join(e["p"]), mode=r.choice([0, 0o600, 0o4711]), uid=r.choice([0, 42]), gid=r.choice([0, 43]), uname=r.choice(["", "pu"]), gname=r.choice(["", "pg"])))
            o["perms"].append(dict(name="nothere", mode=1, uid=1, gid=1, uname="n", gname="n"))
        return o
    def orders(es):     # another creation order, parents first
        left, done = list(range(len(es))), []
        while left:
            ok = [i for i in left if len(es[i]["p"]) == 1 or any(es[j]["p"] == es[i]["p"][:-1] for j in done)]
            i = r.choice(ok); left.remove(i); done.append(i)
        return done
    def case(es, o, **k):
        c = dict(src="mem", tree=es, order=orders(es), blk=1, gz=r.random() < .3, skip=r.random() < .15, opt=o, fault="", at=0); c.update(k)
        if c["src"] in ("ino", "os"):       # names of users known to this host are not part of the tree
            if c["src"] == "os": c["opt"].update(ouid=True, uname="u", gname="g")
            else: c["opt"].update(uname=c["opt"]["uname"] or "u", gname=c["opt"]["gname"] or "g")
        if c["skip"] and c["gz"]: c["skip"] = False
        return c
    cases = []
    for g in gen:
        es = sorted(g["tree"], key=lambda e: e["p"])
        cases.append(case(es, opt(**g["opt"]), src="ino", gz=False, skip=False))
    ngen = len(cases)
    for i in range(1500 * T):
        es = tree(); cases.append(case(es, ropt(es), src=r.choice(["mem", "ino"])))
    for i in range(6 * T):
        es = tree() + [dict(p=["zbig"], k="file", perm=0o644, uid=0, gid=0, data=[1, 2, 3, 4, 5, 6, 7], tg="", maj=0, min=0, x=[], ino=0)]
        for e in es:
            if len(e["data"]) > 10: e["data"] = e["data"][:3]
        cases.append(case(es, ropt(es), blk=r.choice([70000, 300001])))
    user = []
    for i in range(150 * T):
        es = [e for e in tree()]
        for e in es: e["perm"] = e["perm"] & 0o1777 | 0o700 if e["k"] != "link" else 0o777
        if any(e["k"] in ("dir", "file") for e in es): user.append(case(es, ropt(es), src="dir"))
        es = [dict(e, x=[], perm=e["perm"] & 0o777) for e in es if e["k"] in ("dir", "file")]
        user.append(case(es, ropt(es), src="os"))
    # faults
    for i in range(300 * T):
        es = tree()
        if not es: continue
        o = ropt(es)
        cases.append(case(es, o, fault="write", at=r.randrange(0, 6000 if r.random() < .7 else 1500)))
        fi = [k for k, e in enumerate(es) if e["k"] == "file" and e["data"]]
        if fi: cases.append(case(es, o, src=r.choice(["mem", "ino"]), fault=r.choice(["open", "mid", "short"]), at=r.choice(fi)))
        # the last file in the archive
        es2 = [dict(e) for e in es if e["p"] != ["zz"]] + [dict(p=["zz"], k="file", perm=0o644, uid=0, gid=0, data=[1] * 20, tg="", maj=0, min=0, x=[], ino=0)]
        cases.append(case(es2, o, fault=r.choice(["short", "mid", "open"]), at=len(es2) - 1))
        di = [k for k, e in enumerate(es) if e["k"] == "dir"]
        if di: cases.append(case(es, o, fault=r.choice(["readdir", "partdir"]), at=r.choice(di)))
        cases.append(case(es, o, src=r.choice(["mem", "ino"]), fault=r.choice(["readdir", "partdir", "stat"]), at=-1))
        for k, f in (("link", "readlink"), ("dev", "readnod"), (None, "info")):
            ki = [j for j, e in enumerate(es) if k in (None, e["k"])]
            if ki: cases.append(case(es, o, src=r.choice(["mem", "ino"]), fault=f, at=r.choice(ki)))
        if i % 10 == 0: cases.append(case(es, o, fault="cancel"))
    # the end of the archive cannot be written
    es = [dict(p=["f"], k="file", perm=0o644, uid=0, gid=0, data=[1], tg="", maj=0, min=0, x=[], ino=0)]
    for n in range(0, 2200, 100): cases.append(case(es, opt(), fault="write", at=n, gz=False, skip=False)); cases.append(case(es, opt(), fault="write", at=n // 10, gz=True))
    res = ck.run_cases("tar", cases, case_timeout=60) + ck.run_cases("tar", user, case_timeout=60, as_user=True)
    recs = []
    for c, x in zip(cases + user, res):
        if "out" not in x:
            if "skipped" not in x: ck.violation("crash", x, c)
            continue
        recs.append(dict(x, opt=c["opt"], fault=c["fault"], skip=c["skip"], src=c["src"], gz=c["gz"]))
        if len(c["tree"]) > 1: ck.distinct.add(json.dumps(c))
    ck.sample(recs[ngen]); ck.sample(recs[-1])
    ck.evals = ck.traces = len(recs)
    for i, b in sorted(ck.judge("TarJudge", recs, consts="CONSTANT TVariant = \"ok\"\n").items()):
        for cl in b: ck.violation(cl, {k: recs[i][k] for k in ("src", "fault", "gz", "skip", "err", "rerr", "opt", "tree", "out")}, recs[i])
    ck.assumptions += ["archives are read back with Go's archive/tar", "hard links are expected to share a body only where the filesystem reports inode numbers"]
    ck.finish(generated=ngen, faults=sum(bool(c["fault"]) for c in cases), faults_reported=sum(bool(c["fault"] and x.get("err")) for c, x in zip(cases, res)))
main(run)
