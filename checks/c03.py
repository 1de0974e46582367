import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import resgen as g

def dedupe(pk):
    seen, out = set(), []
    for p in pk:
        if (p["name"], p["ver"], p["tag"]) in seen: continue
        seen.add((p["name"], p["ver"], p["tag"]))
        p["id"] = len(out) + 1
        out.append(p)
    return out

def rank_case(r):
    n = r.choice([2, 3, 4, 6, 9, 25])
    vers = g.VERS if r.random() < .7 else ["1", "2"]
    pk = []
    for i in range(n):
        nm = r.choice(["a", "a", "b", "c"])
        prov = [] if nm == "a" else [{"n": "a", "v": r.choice(["", "1", "2", "3"])}]
        if r.random() < .2: prov.append({"n": "z", "v": r.choice(["1", "2", "9"])})
        pk.append(g.pkg(i + 1, nm, r.choice(vers), prov, [], r.choice(["", "o"]), r.choice([0, 0, 0, 1, 5]), r.choice(["", "", "edge", "t2"])))
    pk = dedupe(pk)
    c = g.C("a", pin=r.choice(["", "", "edge", "t2", "none"])) if r.random() < .5 else g.C("a", r.choice(g.OPS), r.choice(vers), pin=r.choice(["", "edge"]))
    return pk, c

def choice_case(r):
    """root depends on one name with several candidates; some packages are selected before."""
    pk = [g.pkg(1, "root", "1", [], [], r.choice(["", "o1"]))]
    pin = r.choice(["", "", "edge"])
    if pin: pk[0]["tag"] = "edge"
    for i in range(r.randrange(1, 3)):
        pk.append(g.pkg(len(pk) + 1, "sel%d" % i, "1", [], [], r.choice(["", "o2", "o3"])))
    nsel = len(pk)
    for i in range(r.randrange(2, 7)):
        nm = r.choice(["a", "b", "c"])
        prov = [] if nm == "a" else [{"n": "a", "v": r.choice(["", "1", "2"])}]
        pk.append(g.pkg(len(pk) + 1, nm, r.choice(["1", "2", "3", "2_rc1"]), prov, [], r.choice(["", "o1", "o2", "o3", nm]), r.choice([0, 0, 0, 3]), r.choice(["", "", "edge", "t2"])))
    pk = dedupe(pk)
    req = g.C("a") if r.random() < .6 else g.C("a", r.choice(g.OPS), r.choice(["1", "2", "3"]))
    pk[0]["deps"] = [req]
    world = [g.C("root", pin=pin)] + [g.C("sel%d" % i) for i in range(nsel - 1)]
    r.shuffle(world)
    return pk, world, req, pin, nsel

def chain_case(r):
    """as choice_case, but packages are also selected by the dependencies of root resolved before (they have one candidate)."""
    pk, world, req, pin, nsel = choice_case(r)
    # (no two candidates of one name, so that every choice can be completed)
    names, keep = set(), []
    for p in pk:
        if p["name"] in names and r.random() < .9: continue
        names.add(p["name"]); keep.append(p)
    pk = dedupe(keep)
    for p in pk[nsel:]:
        p["org"] = r.choice(["", "o1", "o2", "o4", "o5"])
    cands = [p for p in pk[nsel:] if p["tag"] in ("", pin)]
    chosen = list(range(1, nsel + 1))
    deps = [req]
    how = r.choice(["chain", "dep", "sib"])
    exact = None
    if how != "chain" and cands:
        k = r.choice(cands)
        if sum(p["name"] == k["name"] for p in pk) == 1:
            exact = g.C(k["name"], "=", k["ver"]) if r.random() < .5 else g.C(k["name"])
            if sum(k["name"] in [p["name"]] + [q["n"] for q in p["prov"]] for p in pk) > 1: exact = None
        if exact: chosen.append(k["id"])
    if how == "sib" and exact: deps.append(exact)
    else:
        y = g.pkg(len(pk) + 1, "y1", "1", [], [], r.choice(["", "o4"]))
        x = g.pkg(len(pk) + 2, "x1", "1", [], [g.C("y1")] + ([exact] if exact else []), r.choice(["", "o5"]))
        pk += [y, x]; chosen += [y["id"], x["id"]]
        deps.append(g.C("x1"))
    r.shuffle(deps)
    pk[0]["deps"] = deps
    return pk, world, req, pin, chosen

def run():
    ck = Check("C03", "model_checking",
      "cases = ranked candidate lists, single-dependency choices with packages already selected, tag containment and repeated/permuted/warmed-up resolutions of random universes; "
      "non-trivial = at least two candidates (rank, choice) or a successful resolution of two packages (det, tag)")
    ck.build()
    # laws of the ranking: a total preorder for every name, tag and selection
    ck.model_check("RankMC", "INIT Init\nNEXT Next\nINVARIANTS Antisym Transitive TagFirst SelectedFirst\nCONSTANT CmpVS <- FastCmp\n", timeout=600)
    T = 8 if ck.thorough else 1
    cases, meta = [], []
    for _ in range(4000 * T):
        pk, c = rank_case(ck.rng)
        cases.append({"indexes": g.indexes(pk, ck.rng), "runs": [{"resolve": g.cs(c)}]}); meta.append(("rank", pk, c))
    for _ in range(4000 * T):
        pk, w, req, pin, nsel = choice_case(ck.rng)
        cases.append({"indexes": g.indexes(pk, ck.rng), "runs": [{"world": [g.cs(c) for c in w]}]}); meta.append(("choice", pk, w, req, pin, list(range(1, nsel + 1))))
    for _ in range(3000 * T):
        pk, w, req, pin, chosen = chain_case(ck.rng)
        cases.append({"indexes": g.indexes(pk, ck.rng), "runs": [{"world": [g.cs(c) for c in w]}]}); meta.append(("choice", pk, w, req, pin, chosen))
    for i in range(3500 * T):
        pk, w = g.random_universe(ck.rng, acyclic=ck.rng.random() < .5, size=ck.rng.choice([None, None, 20, 30]))
        pk = dedupe(pk)
        ix = g.indexes(pk, ck.rng)
        ws = [g.cs(c) for c in w]
        runs = [{"world": ws, "fresh": True}, {"world": ws}, {"world": ws, "fresh": True}]
        for _ in range(2):
            runs.append({"world": ws, "perm": [ck.rng.sample(range(len(x["pkgs"])), len(x["pkgs"])) for x in ix]})
        # other queries first, then the same one
        other = [{"world": [g.cs(ck.rng.choice(w))] + [ck.rng.choice(pk)["name"]], "fresh": True}, {"resolve": ck.rng.choice(pk)["name"] + ck.rng.choice(["", ">1", "<3"])},
                 {"world": [p["name"] for p in ck.rng.sample(pk, min(3, len(pk)))]}]
        cases.append({"indexes": ix, "runs": runs + other + [{"world": ws}]}); meta.append(("det", pk, w))
        c = ck.rng.choice(w)
        rq = g.cs(dict(c, neg=False))
        cases.append({"indexes": ix, "runs": [{"resolve": rq}, {"resolve": rq, "fresh": True}, {"resolve": rq, "fresh": True}] + other + [{"resolve": rq}] +
                      [{"resolve": rq, "perm": [ck.rng.sample(range(len(x["pkgs"])), len(x["pkgs"])) for x in ix]}]}); meta.append(("detr", pk, w))
    res = ck.run_cases("resolve", cases)
    recs, src = [], []
    for m, c, r in zip(meta, cases, res):
        if "runs" not in r:
            if "skipped" not in r: ck.violation("crash", r, c)
            continue
        x = r["runs"][0]
        if m[0] == "rank":
            recs.append({"kind": "rank", "univ": m[1], "req": m[2], "ids": x["ids"]})
            if len(x["ids"]) > 1: ck.distinct.add(json.dumps(recs[-1]))
        elif m[0] == "choice":
            _, pk, w, req, pin, chosen = m
            recs.append({"kind": "choice", "univ": pk, "req": req, "pin": pin, "root": 1, "chosen": chosen, "ok": x["ok"], "ids": x["ids"]})
            ck.distinct.add(json.dumps(recs[-1]))
        else:
            runs = [json.dumps([y["ok"], y["ids"]]) for y in r["runs"]]
            keep = runs[:5] + runs[-1:] if m[0] == "det" else runs[:3] + runs[-2:]
            recs.append({"kind": "det", "runs": keep}); src.append(c)
            if m[0] == "det" and x["ok"]:
                src.append(c)
                recs.append({"kind": "tag", "univ": m[1], "world": m[2], "ok": x["ok"], "ids": x["ids"]})
                if len(x["ids"]) > 1: ck.distinct.add(json.dumps(recs[-1]))
            continue
        src.append(c)
    ck.evals = ck.traces = len(recs)
    for k in ("rank", "choice", "det", "tag"): ck.sample(next((x for x in recs if x["kind"] == k), None))
    for i, b in sorted(ck.judge("ResolverJudge", recs).items()):
        for cl in b: ck.violation(cl, {"case": src[i], "record": {k: v for k, v in recs[i].items() if k != "univ"}}, recs[i])
    ck.finish()
main(run)
