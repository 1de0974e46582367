import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    ck = Check("C08", "model_checking",
      "cases = histories of index loads in one process: origins serving differently signed, swapped, extended or damaged archives, calls with different keys, exemptions and failures, partly in parallel; non-trivial = a history with at least two loads of one repository under different trust or from different archives")
    ck.build()
    base = "INIT Init\nNEXT Next\nCONSTANTS TDepth = %d\n TPolicy = \"%s\"\n TSticky = %s\n"
    ck.model_check("IndexTrustMC", base % (4 if ck.thorough else 3, "mode", "FALSE") + "INVARIANTS Sound Live\n", timeout=800)
    for pol, st, inv in (("url", "FALSE", "Sound"), ("mode", "TRUE", "Live")):
        out, _, _ = ck.tlc("IndexTrustMC", base % (3, pol, st) + "INVARIANTS %s\n" % inv, expect_ok=False, name="IndexTrustMC(%s,%s)" % (pol, st))
        if "Invariant %s is violated" % inv not in out: raise CheckError("the model does not see the %s defect" % inv)
    gen = os.path.join(ck.work, "gen.ndjson")
    ck.tlc("IndexTrustGen", "INIT GInit\nNEXT GNext\nINVARIANT Generate\nCONSTANTS TDepth = 2\n TPolicy = \"mode\"\n TSticky = FALSE\n", env={"GENOUT": gen}, workers=1)
    ck.vhrun(["keys", os.path.join(ck.work, "keys"), "3"])
    r, T = ck.rng, 8 if ck.thorough else 1
    AR = [dict(content=1, signer=1, covers=1), dict(content=2, signer=2, covers=2), dict(content=3, signer=0, covers=0), dict(content=4, signer=1, covers=1)]
    AR = [dict(a, shape="plain", other=9, how=0) for a in AR]
    def call(urls, **k):
        c = dict(urls=urls, keys=[1], fill="", rot=False, nil=False, ignore=False, exempt=[], decoy=False, via="direct", cancel=False, tag=False)
        c.update(k); return c
    cases = []
    for line in open(gen):
        h = json.loads(line)
        via = r.choice(["direct", "apk"])
        local = [r.random() < .3]
        cases.append(dict(archives=AR, local=local, steps=[dict(set=[dict(u=1, a=s["a"], net=s["net"] if not local[0] else "ok")],
             calls=[call([1], keys=s["c"]["keys"], ignore=s["c"]["ignore"], exempt=s["c"]["exempt"], via=via, cancel=s["net"] == "cancel")]) for s in h]))
    ngen = len(cases)
    for _ in range(2500 * T):
        na, nu = r.randrange(2, 6), r.choice([1, 1, 2, 3])
        ar = []
        for i in range(na):
            sh = r.choice(["plain"] * 5 + ["inside", "closed", "append", "front", "damaged", "swap"])
            a = dict(content=i + 1, signer=r.choice([1, 2, 3, 1, 0]), covers=i + 1, shape=sh, other=20 + i, how=r.randrange(1000))
            if sh == "swap": a.update(shape="plain", covers=30 + i)
            if a["shape"] != "plain" and a["signer"] == 0: a["signer"] = 1
            if a["signer"] == 0: a["covers"] = a["content"]
            ar.append(a)
        local = [r.random() < .3 for _ in range(nu)]
        steps = []
        for k in range(r.randrange(1, 6)):
            sets = [dict(u=u, a=r.randrange(1, na + 1), net=r.choice(["ok"] * 8 + ["missing", "missing", "notdir", "loop"]) if local[u - 1] else r.choice(["ok"] * 7 + ["err", "404", "500", "cut", "cancel"]))
                    for u in range(1, nu + 1) if k == 0 or r.random() < .6]
            calls = []
            for _ in range(r.choice([1, 1, 2, 4])):
                us = r.sample(range(1, nu + 1), r.randrange(1, nu + 1))
                keys = r.sample([1, 2, 3], r.choice([0, 1, 1, 2, 3]))
                ex = [u for u in range(1, nu + 1) if r.random() < .2]
                calls.append(call(us, keys=keys, fill=r.choice(["", "", "", "empty", "junk", "pem"]), rot=r.random() < .25, nil=not keys and r.random() < .5, ignore=r.random() < .2, exempt=ex,
                                  decoy=r.random() < .3, via=r.choice(["direct", "apk"]), cancel=r.random() < .1, tag=r.random() < .2))
                if any(s["net"] == "cancel" for s in sets): calls[-1]["cancel"] = calls[-1]["cancel"]
            steps.append(dict(set=sets, calls=calls))
        cases.append(dict(archives=ar, local=local, steps=steps))
    res = ck.run_cases("trust", cases)
    recs = []
    for c, x in zip(cases, res):
        if "steps" not in x:
            if "skipped" not in x: ck.violation("crash", x, c)
            continue
        rec = dict(archives=c["archives"], steps=[])
        bad = False
        for s, o in zip(c["steps"], x["steps"]):
            cs = []
            for cl, oc in zip(s["calls"], o):
                if "ok" not in oc: ck.violation("crash", oc, c); bad = True; break
                cs.append(dict(cl, ok=oc["ok"], got=oc["got"], err=oc["err"]))
            rec["steps"].append(dict(set=s["set"], calls=cs))
        if bad: continue
        recs.append(rec)
        if len(c["steps"]) > 1 or len(c["steps"][0]["calls"]) > 1: ck.distinct.add(json.dumps(c))
    ck.sample(recs[0]); ck.sample(recs[-1])
    ck.evals = ck.traces = len(recs)
    for i, b in sorted(ck.judge("IndexTrustJudge", recs).items()):
        for cl in b: ck.violation(cl, recs[i], recs[i])
    ck.assumptions += ["RSA/SHA-1 are trusted; signatures in the test archives are made independently of the code under test"]
    ck.finish(generated_histories=ngen, loads=sum(len(s["calls"]) for x in recs for s in x["steps"]))
main(run)
