import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from instgen import *
import copy

R = 'SPECIFICATION RSpec\nINVARIANTS Laws\nCONSTANTS IVariant="%s" RFull=%s\n'

def run():
    ck = Check("C25", "model_checking",
      "cases = histories in which an installation fails (at some operation of the filesystem, by a package, a conflict or cancellation) and is tried again, changed or not, through the same or a new object; non-trivial = a call failed and a later one succeeded")
    ck.build()
    ck.model_check("RetryMC", R % ("ok", "TRUE" if ck.thorough else "FALSE"), timeout=800)
    for v in ("keepowner", "oldowner"):
        out, _, _ = ck.tlc("RetryMC", R % (v, "FALSE"), expect_ok=False, name="RetryMC(%s)" % v)
        if "Invariant Laws is violated" not in out: raise CheckError("the model does not see " + v)
    r = ck.rng
    CS = [["one", "two"], ["same"], ["x*70000", "x*69999"], ["", "a"]]
    def universe(g, n, names, links=True):
        pool = [r.choice(["usr/bin/tool", "etc/conf", "top", "usr/lib/x/deep", "a b"]) + r.choice(["", "1"]) for _ in range(r.choice([0, 1, 2]))]
        cs = r.choice(CS)
        uni = r.random() < .6
        pk = []
        for nm in names:
            es = g.tree(nm, n, shared=[(p, r.choice(cs)) for p in dict.fromkeys(pool) if r.random() < .6], links=links)
            if r.random() < .8: es = [e for e in es if e["k"] != "hard"]
            if r.random() < .3: es.append(g.entry("usr/lib/common-link", "link", c="tool")) if any(e["p"] == ["usr", "lib"] for e in es) else None
            # mostly reasons to give way, so that installations get somewhere
            pk.append(g.pkg(nm, es, org="o1" if uni else r.choice(["", "o1", "o2"]), repl=[x for x in names if x != nm and r.random() < (.1 if uni else .5)]))
        return pk
    def again(g, pk, same):
        """what is installed after the attempt: the same, part of it, more, or rebuilt"""
        pk = copy.deepcopy(pk)
        for p in pk: p.pop("bad", None)
        if same: return pk
        u = r.random()
        if u < .35: pk = [p for p in pk if r.random() < .7]
        elif u < .6: r.shuffle(pk)
        else:
            for p in pk:
                for e in p["es"]:
                    if e["k"] == "reg" and r.random() < .3: e["c"] = "rebuilt*%d" % r.choice([1, 30])
        return pk
    def order(pk):
        o = list(range(len(pk))); r.shuffle(o)
        return o
    def rand():
        mode = r.choice(["mem", "mem", "dir", "dir", "lazy"])
        g = Gen(r, mode)
        names = ["p%d" % k for k in range(r.choice([1, 2, 3, 4]))]
        pk = universe(g, r.choice([1, 3, 5]), names)
        calls = []
        k = r.choice([0, 0, 1]) if len(pk) > 1 else 0
        if k: calls.append(call(pk[:k])); pk = pk[k:]
        todo = pk
        for n in range(r.choice([1, 1, 2])):
            how = r.random()
            at = copy.deepcopy(todo)
            fault, cancel = 0, -1
            if how < .55 and mode != "lazy": fault = r.randrange(1, r.choice([12, 60, 150]))
            elif how < .75: spoil(r, r.choice(at)) if at else None
            elif how < .92 and mode != "lazy" and at:
                # somebody at the end nobody gives way to
                own = [e for p in at for e in p["es"] if e["k"] == "reg"]
                x = g.pkg("intruder", [], org="foreign", repl=[], local=False)
                x["es"] = [g.entry("/".join(r.choice(own)["p"]), "reg", c="foreign", perm=0o644)] if own else [g.entry("dev", "other")]
                at.append(x)
            else: cancel = r.randrange(len(at) + 1)
            for p in at:
                if calls and p.get("bad") == "noinfo": p["bad"] = "404"      # not looked at if it is installed already
            calls.append(call(at, order(at), sde=r.choice([-1, 1700000000]), cancel=cancel, new=bool(calls) and r.random() < .25, fault=fault))
            todo = again(g, todo, r.random() < .6)
        calls.append(call(todo, order(todo), sde=r.choice([-1, 1700000000]), new=r.random() < .4))
        if r.random() < .2: calls.append(call(again(g, pk, True)))
        return dict(mode=mode, init=r.choice(["init", "init", "none"]), calls=calls)
    # every operation of some installations fails once
    def sweep(seed, mode, new, top):
        out = []
        g = Gen(r, mode)
        first = [g.pkg("old", g.tree("old", 2, shared=[("usr/bin/tool", "zero")], links=False), org="o1")]
        pk = [g.pkg("a", g.tree("a", 2, shared=[("usr/bin/tool", "one")], links=False) + [g.entry("a-link", "link", c="usr")], org="o1"),
              g.pkg("b", g.tree("b", 2, shared=[("usr/bin/tool", "two")] if seed % 2 == 0 else [], links=False), org="o1")]
        if seed % 2:
            for e in pk[0]["es"] + pk[1]["es"]:
                if e["k"] in ("reg", "dir"): e["x"] = "cap"
        for n in range(1, top):
            out.append(dict(mode=mode, init="init", calls=[call(copy.deepcopy(first)), call(copy.deepcopy(pk), fault=n), call(copy.deepcopy(pk), new=new)]))
        return out
    N = 6000 if ck.thorough else 900
    cases = [rand() for _ in range(N)]
    for i in range(6 if ck.thorough else 2):
        for mode in ("mem", "dir"):
            for new in (False, True)[:1 if i == 1 else 2]: cases += sweep(i, mode, new, 140)
    recs, src = play(ck, [({}, cases)], chunk=1500)
    for rec in recs:
        o = rec["outs"]
        if any(o[i]["err"] and not o[j]["err"] for i in range(len(o)) for j in range(i + 1, len(o))): ck.distinct.add(json.dumps(rec["calls"]) + str([x["err"] for x in o]))
    ck.extra["filesystem_failures"] = sum(o["fired"] for x in recs for o in x["outs"])
    ck.extra["calls_failed"] = sum(o["err"] for x in recs for o in x["outs"])
    ck.extra["calls_done_after_a_failure"] = sum(not x["outs"][j]["err"] and any(o["err"] for o in x["outs"][:j]) for x in recs for j in range(len(x["outs"])))
    ck.extra["calls_refused_after_a_failure"] = sum(x["outs"][j]["err"] and not x["outs"][j]["fired"] and any(o["err"] for o in x["outs"][:j]) for x in recs for j in range(len(x["outs"])))
    ck.sample(next((dict(outs=[dict(msg=o["msg"], fired=o["fired"], idb=[d["name"] for d in o["idb"]], sc=[s["n"] for s in o["sc"]][:4]) for o in x["outs"]]) for c, x, e in src if any(o["fired"] and o["err"] for o in x["outs"][:-1]) and not x["outs"][-1]["err"]), None))
    ck.sample(next((dict(outs=[dict(msg=o["msg"], idb=[d["name"] for d in o["idb"]]) for o in x["outs"]]) for c, x, e in src if x["outs"][-1]["err"] and x["outs"][0]["err"]), None))
    ck.assumptions += ["one operation on the filesystem fails per call, reads and writes alike, and what undoes it works", "the death of the process in the middle of an installation is not covered"]
    ck.finish()
main(run)
