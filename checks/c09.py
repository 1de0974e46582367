import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    ck = Check("C09", "model_checking",
      "cases = package archives of many layouts, whole or cut, damaged, extended or rearranged anywhere, expanded, parsed, resolved or installed (once or again and again, with and without a cache, with what the index and the control section promise matching or not); non-trivial = the archive is not whole or not the promised one")
    ck.build()
    base = "CONSTANTS EVariant = \"%s\"\n ENd = %d\n"
    ck.model_check("ExpandMC", "SPECIFICATION Spec\nINVARIANTS Exact Truncated Promise Intact\nPROPERTY Ends\n" + base % ("ok", 4 if ck.thorough else 2))
    for v, inv in (("two", "Exact"), ("ahead", "Intact"), ("tail", "Exact"), ("nocrc", "Exact"), ("noctl", "Promise"), ("nodat", "Promise"), ("eof", "Truncated"), ("anysig", "Intact")):
        out, _, _ = ck.tlc("ExpandMC", "INIT Init\nNEXT Next\nINVARIANT %s\n" % inv + base % (v, 2), expect_ok=False, name="ExpandMC(%s)" % v)
        if "Invariant %s is violated" % inv not in out: raise CheckError("the model does not see defect " + v)
    out, _, _ = ck.tlc("ExpandMC", "INIT Init\nNEXT NoNext\nINVARIANT Generate\n" + base % ("ok", 2), workers=1)
    gens = list(printed(out, "GEN"))
    if len(gens) < 1000: raise CheckError("nothing generated")
    r, T = ck.rng, 10 if ck.thorough else 1
    def layout(**k):
        l = dict(sgn=r.random() < .6, ctl=1, dat=1, nd=r.choice([1, 1, 1, 2, 3]), dec=1, level=r.choice([-1, -1, 0, 1, 9, -2]), hdr=r.choice([0, 0, 0, 1, 4, 7]), big=r.choice([10, 10, 1000, 70000]), cut=r.random() < .3,
                 fmt=r.choice(["", "ustar", "gnu", "pax"]), nosum=r.random() < .3, sig2=r.random() < .2, case=r.random() < .1, sum="bad" if r.random() < .03 else "", dhx=r.choice([1, 1, 2, 3]) if r.random() < .06 else 0)
        l.update(k); return l
    def one(l, ed, **k):
        c = dict(kind=r.choice(["expand", "expand", "parse", "resolve", "calc"]), l=l, ed=ed, piece=r.choice([0, 0, 1, 2, 3, 7, 100, 511]), **{"with": r.random() < .3}, err=r.random() < .04)
        if l["big"] > 20000: c["piece"] = 0
        c.update(k); return c
    NONE = dict(k="none", i=0, at=0)
    cases = []
    def edit(l, k=None):
        nm = l["sgn"] + 1 + l["nd"]
        k = k or r.choice(["none", "none", "none", "cut", "cut", "bad", "bad", "junk", "zeros", "drop", "dup", "swap"])
        return dict(k=k, i=r.randrange(1, nm + 1) if k in ("drop", "dup") else r.randrange(1, 3 * nm + 1), at=r.random())
    # what TLC enumerated, by every consumer
    for g in gens:
        for kind in ["expand", "parse", r.choice(["resolve", "calc"])] if g["pro"] == 0 else []:
            for at in {0.0, r.random(), .999} if g["ed"]["k"] in ("cut", "bad") else {0.0}:
                cases.append(one(layout(sgn=g["sgn"], ctl=g["ctl"], dat=g["dat"], nd=g["nd"], dec=g["dec"], cut=False), dict(g["ed"], at=at), kind=kind, err=False))
    for g in gens:
        if g["ed"]["k"] in ("none", "drop", "dup", "junk") or r.random() < .25:
            l = layout(sgn=g["sgn"], ctl=g["ctl"], dat=g["dat"], nd=g["nd"], dec=g["dec"], cut=False)
            cases.append(dict(kind="install", l=l, pro=g["pro"], cache=False, mode=r.choice(["mem", "mem", "dir"]), via=r.choice(["http", "file"]), mates=r.choice([0, 0, 0, 1, 3]), steps=[dict(l=l, ed=dict(g["ed"], at=r.random()), cut=0)]))
    ngen = len(cases)
    for _ in range(3000 * T):
        l = layout(ctl=r.choice([1, 2]), dat=r.choice([1, 2]), dec=r.choice([0, 1, 1, 2]))
        cases.append(one(l, edit(l)))
    # histories of installations of one URL
    for _ in range(1200 * T):
        l = layout()
        steps = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            m = dict(l, **r.choice([{}] * 4 + [dict(ctl=2), dict(dat=2), dict(ctl=2, dec=2, dat=2), dict(sgn=not l["sgn"]), dict(sum="bad"), dict(dec=0)]))
            steps.append(dict(l=None if r.random() < .15 else m, ed=edit(m), cut=r.choice([0] * 6 + [1, 50, 100])))
        pro = r.choice([0, 1, 1, 1, 2])
        cases.append(dict(kind="install", l=l, pro=pro, psum=r.choice(["prefix", "zeros", "long"]) if r.random() < .06 else "", cache=pro > 0 and r.random() < .7, mode=r.choice(["mem", "dir"]), via=r.choice(["http", "http", "file"]), mates=r.choice([0, 0, 0, 1, 3]), steps=steps))
    res = ck.run_cases("expand", cases, as_user=True, case_timeout=60)
    if ck.leftovers(): ck.violation("left behind", ck.leftovers()[:5], "temporary files after all cases")
    recs, src = [], []
    n = {}
    for c, x in zip(cases, res):
        if "kind" not in x:
            if "skipped" not in x: ck.violation("crash", x, c)
            continue
        recs.append(x); src.append(c)
        for s in x.get("steps", [x]):
            k = "%s %s" % (x["kind"], "ok" if s["ok"] else "error"); n[k] = n.get(k, 0) + 1
        if c["kind"] == "install" or c["ed"]["k"] != "none": ck.distinct.add(json.dumps(c))
    ck.sample(dict(case=src[0], result=recs[0])); ck.sample(dict(case=src[-1], result=recs[-1]))
    ck.evals = ck.traces = len(recs)
    for i, b in sorted(ck.judge("ExpandJudge", recs).items()):
        for cl in b: ck.violation(cl, recs[i], src[i])
    ck.assumptions += ["a reader of the check's own (Go's standard compress/gzip and archive/tar) says what the bytes are",
                       "without a promised checksum and data hash, other whole sections are another package"]
    ck.finish(enumerated=ngen, outcomes=n)
main(run)
