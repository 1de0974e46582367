import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import resgen as g

def run():
    ck = Check("C02", "model_checking",
      "cases = package universes enumerated by the specification (5 packages, 6 worlds), universes with exactly one provider per name, install_if packages, and seeded random "
      "universes (cycles, provides, exclusions, install_if, tags); non-trivial = a result of at least two packages, or an error although every requested name exists")
    ck.build()
    cfg = "SPECIFICATION MSpec\nINVARIANTS InvSound InvMust\nPROPERTY Terminates\nCONSTANTS Verify = TRUE Sample = %d\n"
    ck.model_check("ResolverMC", cfg % (20000 if ck.thorough else 1500), extra=["-seed", str(ck.seed)], timeout=800)
    gen = os.path.join(ck.work, "gen.ndjson")
    ck.tlc("ResolverMC", "INIT GInit\nNEXT GNext\nINVARIANT Generate\nCONSTANTS Verify = TRUE Sample = %d\n" % (0 if ck.thorough else 5000),
           env={"GENOUT": gen}, extra=["-seed", str(ck.seed)], name="ResolverMC/generate", timeout=800)
    probs = []
    for line in open(gen):
        o = json.loads(line)
        probs.append((o["univ"], o["world"]))
    if len(probs) > 60000: probs = ck.rng.sample(probs, 60000)
    for _ in range(12000 if ck.thorough else 2500): probs.append(g.unique_universe(ck.rng))
    for i in range(60000 if ck.thorough else 7000): probs.append(g.random_universe(ck.rng, acyclic=i % 2 == 0))
    nsound = len(probs)
    for i in range(30000 if ck.thorough else 3000): probs.append(g.iif_universe(ck.rng))
    cases = [{"indexes": g.indexes(u, ck.rng), "runs": [{"world": [g.cs(c) for c in w]}]} for u, w in probs]
    res = ck.run_cases("resolve", cases)
    recs = []
    okc = 0
    for k, ((u, w), c, r) in enumerate(zip(probs, cases, res)):
        if "runs" not in r:
            if "skipped" not in r: ck.violation("crash" if "hang" not in r else "does-not-terminate", r, c)
            continue
        x = r["runs"][0]
        okc += x["ok"]
        recs.append({"kind": "sound", "univ": u, "world": w, "ok": x["ok"], "ids": x["ids"]})
        if k >= nsound: recs.append(dict(recs[-1], kind="iif"))
        if len(x["ids"]) > 1 or not x["ok"]: ck.distinct.add(json.dumps([u, w]))
    ck.evals = ck.traces = len(recs)
    ck.sample(recs[0]); ck.sample(recs[-1])
    ck.log("%d of %d resolutions succeeded" % (okc, len(recs)))
    if not 0.15 < okc / len(recs) < 0.98: raise CheckError("the cases are vacuous")
    for i, b in sorted(ck.judge("ResolverJudge", recs).items()):
        for cl in b: ck.violation(cl, {"world": [g.cs(c) for c in recs[i]["world"]], "packages": [(p["id"], p["name"], p["ver"], [g.ps(x) for x in p["prov"]], [g.cs(x) for x in p["deps"]]) for p in recs[i]["univ"]], "result": recs[i]["ids"], "ok": recs[i]["ok"]}, recs[i])
    ck.finish(succeeded=okc)
main(run)
