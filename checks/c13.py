import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import fsgen

MCFG = "INIT FInit\nNEXT FNext\nVIEW FView\nINVARIANTS %s\nCONSTANTS FLen=%d FNodes=%d FSet=\"%s\" FVariant=\"%s\"\n"
INV = "TreeOK FailSame NoOrphans Canonical LinkRel SharedOK"

def model(ck, quick_len=4):
    deep = ck.thorough
    ck.model_check("FsMC", MCFG % (INV, 5 if deep else quick_len, 4, "tree", "ok"), name="FsMC(tree)", timeout=1800)
    ck.model_check("FsMC", MCFG % (INV, 6 if deep else 4, 3, "file", "ok"), name="FsMC(files)", timeout=1800)
    for v, inv in (("rootrel", "LinkRel"), ("rmtree", "NoOrphans")):
        out, _, _ = ck.tlc("FsMC", MCFG % (inv, 4, 4, "tree", v), expect_ok=False, name="FsMC(%s)" % v)
        if "Invariant %s is violated" % inv not in out: raise CheckError("the model does not see defect " + v)

def generated(ck, lens=(3, 4)):
    """Histories to every state of the small models, each with a suffix of further operations."""
    res = []
    for s, l, n in (("tree", lens[0], 4), ("file", lens[1], 3)):
        out, _, _ = ck.tlc("FsMC", MCFG % ("GenPrint", l, n, s, "ok"), workers=1, name="FsMC(gen %s)" % s)
        hs = list(printed(out, "GEN"))
        if not hs: raise CheckError("no histories generated")
        ops = {json.dumps(o, sort_keys=True): o for h in hs for o in h}
        ops = [ops[k] for k in sorted(ops)]
        if len(hs) > (40000 if ck.thorough else 6000): hs = ck.rng.sample(hs, 40000 if ck.thorough else 6000)
        for h in hs: res.append(h + [ck.rng.choice(ops) for _ in range(8)])
    return res

def run():
    ck = Check("C13", "model_checking",
      "cases = one history of filesystem operations replayed on NewMemFS with the visible tree after each step; non-trivial = at least one link, open handle or failed operation in it")
    ck.build()
    model(ck)
    r = ck.rng
    hs = generated(ck)
    ngen = len(hs)
    g = fsgen.Gen(r)
    few = fsgen.Gen(r, names=("a", "d"))
    for i in range(20000 if ck.thorough else 3000):
        hs.append((few if i % 3 == 0 else g).history(r.choice([5, 12, 25])))
    # long chains of symlinks
    for n in (1, 39, 40, 41, 45):
        h = [dict(o="write", p=["f"], b=[1], perm=0o644)]
        for i in range(n): h.append(dict(o="symlink", p=["l%d" % i], tg=fsgen.target("f" if i == 0 else "l%d" % (i - 1), False)))
        h += [dict(o=o, p=["l%d" % (n - 1)]) for o in ("readfile", "stat", "lstat", "readlink")]
        hs.append(h)
    cases = [dict(disk=False, ops=[fsgen.full(o) for o in h]) for h in hs]
    judge_histories(ck, cases, False)
    ck.assumptions += ["directories opened as files, truncation without write access, times and sizes of symlinks are not specified; a path through a file may be reported as not existing"]
    ck.finish(generated_histories=ngen)

def judge_histories(ck, cases, disk, prefix="", **kw):
    res = ck.run_cases("fs", cases, case_timeout=60, **kw)
    recs = []
    for c, x in zip(cases, res):
        if "steps" not in x:
            if "skipped" not in x: ck.violation("crash" if "panic" in x or "crash" in x else "hang" if "hang" in x else "nofs", x, c)
            continue
        recs.append(dict(x, ops=c["ops"], isdisk=disk, fold=bool(c.get("fold"))))
        if any(o["o"] in ("link", "symlink", "open") for o in c["ops"]) or any(s["err"] for s in x["steps"]): ck.distinct.add(json.dumps(c["ops"]))
    ck.sample({"ops": recs[0]["ops"], "steps": recs[0]["steps"]})
    ck.evals += len(recs); ck.traces += len(recs)
    for i, b in sorted(ck.judge("FsJudge", recs, consts="CONSTANT FVariant = \"ok\"\n", chunk=8000).items()):
        for cl in b: ck.violation(prefix or "-".join(str(x) for x in cl[:2] if cl[0] != "view"), dict(clause=cl, ops=[{k: v for k, v in o.items() if k in ("o", "p") or v} for o in recs[i]["ops"]], steps=[s for s in recs[i]["steps"]][-3:]), recs[i])
if __name__ == "__main__": main(run)
