import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from instgen import *

O = 'INIT OInit\nNEXT ONext\nINVARIANTS %s\nCONSTANTS IVariant="%s" OFull=%s\n'

def run():
    ck = Check("C05", "model_checking",
      "cases = lists of packages with files in common, with origins and replacements, installed in one call; non-trivial = some path is carried by two packages")
    ck.build()
    for full in ("FALSE", "TRUE"): ck.model_check("OwnMC", O % ("Laws", "ok", full), name="OwnMC(%s)" % full)
    out, _, _ = ck.tlc("OwnMC", O % ("Laws", "noorigin", "FALSE"), expect_ok=False, name="OwnMC(noorigin)")
    if "Invariant Laws is violated" not in out: raise CheckError("the model does not see noorigin")
    r = ck.rng
    unis = []
    for full in ("FALSE", "TRUE"):
        out, _, _ = ck.tlc("OwnMC", O % ("GenOwn", "ok", full), workers=1, name="OwnMC(gen %s)" % full)
        unis += [g["u"] for g in printed(out, "GEN")]
    if not ck.thorough: unis = r.sample(unis, 2200)
    SC = {"x": "contents\n", "y": "other contents\n"}
    def small(u, mode):
        g = Gen(r, mode)
        pk = []
        for n, x in zip("abc", u):
            es = [g.entry(p, "reg", c=SC[x[k]], perm=0o644) for p, k in (("f", "c1"), ("g", "c2")) if x[k]]
            pk.append(g.pkg(n, es, org=x["o"], repl=x["r"], sc=[], tr=[], local=False))
        return dict(mode=mode, init="init", calls=[call(pk)])
    def big(mode):
        g = Gen(r, mode)
        names = ["p%d" % k for k in range(r.choice([2, 3, 3, 4, 6]))]
        pool = [r.choice(["usr/bin/tool", "etc/conf", "top", "usr/lib/x/deep", ".hid/f", "usr/share/ü", "a b"]) + r.choice(["", "1"]) for _ in range(r.choice([1, 2, 4]))]
        cs = r.choice([["", "a"], ["one", "two"], ["same"], ["x*70000", "x*69999", "z"], ["o\n", "t\n", "th\n"]])
        kind = r.random()
        pk = []
        for n in names:
            sh = [(p, r.choice(cs)) for p in dict.fromkeys(pool) if r.random() < .7]
            es = g.tree(n, 4, shared=sh)
            for e in es:
                if "/".join(e["p"]) in pool: e["perm"] = r.choice([0o644, 0o644, 0o755, 0o600])
            if r.random() < .2 and mode != "lazy":
                own = [e for e in es if e["k"] == "reg" and "/".join(e["p"]) in pool]
                if own: es.append(g.entry("hard-" + n, "hard", tg=r.choice(own)["p"]))
            org = r.choice(["", "o1", "o1", "o2"]) if kind < .8 else "o1"
            repl = [x for x in names if x != n and r.random() < (.35 if kind < .8 else .1)] + r.choice([[], [], ["unrelated"]])
            pk.append(g.pkg(n, es, org=org, repl=repl, sc=[], tr=[]))
        def order(k):
            o = list(range(k)); r.shuffle(o)
            return o
        k = r.randrange(1, len(pk)) if r.random() < .25 else len(pk)        # some in two calls of one APK object
        return dict(mode=mode, init="init", calls=[call(x, order(len(x))) for x in (pk[:k], pk[k:]) if x])
    N = 8000 if ck.thorough else 900
    cases = [small(u, r.choice(["mem", "mem", "mem", "dir", "lazy"])) for u in unis] + [big(r.choice(["mem", "mem", "dir", "lazy"])) for _ in range(N)]
    recs, src = play(ck, [({}, cases)], chunk=4000)
    for rec in recs:
        ps = [tuple(e["p"]) for c in rec["calls"] for p in c["pk"] for e in p["es"] if e["k"] == "reg"]
        if len(ps) > len(set(ps)): ck.distinct.add(json.dumps(rec["calls"]))
    ck.extra["clashes_reported"] = sum(o["err"] for x in recs for o in x["outs"])
    ck.sample(next((dict(pk=[[p["name"], p["org"], p["repl"], [["/".join(e["p"]), e["c"]] for e in p["es"]]] for p in c["calls"][0]["pk"]], msg=x["outs"][0]["msg"]) for c, x, _ in src if x["outs"][0]["err"]), None))
    ck.sample(next((dict(pk=[[p["name"], p["org"], p["repl"], [["/".join(e["p"]), e["c"]] for e in p["es"]]] for p in x["calls"][0]["pk"]], idb=[[d["name"], d["files"]] for d in x["outs"][0]["idb"]]) for x in recs if not x["outs"][0]["err"] and any(p["repl"] for p in x["calls"][0]["pk"])), None))
    ck.assumptions += ["the packages are installed through one APK object; records of earlier calls are not rewritten (a documented limitation of the code); a path is not reached through two differently named directories"]
    ck.finish()
main(run)
