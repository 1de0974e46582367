import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from instgen import *

S = "INIT SInit\nNEXT SNext\nINVARIANTS Laws\nCONSTANTS SVariant=\"%s\"\n"

def run():
    ck = Check("C07", "model_checking",
      "cases = histories of installations of packages with scripts and triggers; non-trivial = at least one script or trigger is recorded")
    ck.build()
    ck.model_check("ScriptsMC", S % "ok")
    for v in ("terminator", "pair"):
        out, _, _ = ck.tlc("ScriptsMC", S % v, expect_ok=False, name="ScriptsMC(%s)" % v)
        if "Invariant Laws is violated" not in out: raise CheckError("the model does not see " + v)
    r = ck.rng
    def pkg(g, nm, cn):
        p = g.pkg(nm + r.choice(["", "", "", "-" + "long" * 20, "-" + "x" * r.randrange(40, 70)]), g.tree("c%d%s" % (cn, nm), 2, links=False))
        p["ver"] = r.choice(["1.0-r0", "2.3.4_git20240101-r12", "0"])
        p["sc"], p["tr"] = g.scripts(big=True), g.triggers()
        if r.random() < .3: p["extra"] = r.choice([["triggersx = no"], ["depend = a=1"], ["commit = triggers = /nope"], ["# triggers = /comment"]])
        return p
    def rand(mode):
        g = Gen(r, mode)
        calls, used = [], 0
        for cn in range(r.choice([1, 2, 3, 5])):
            n = r.choice([0, 1, 2, 3, 6, 15])
            pk = [pkg(g, "p%d" % (used + k), cn) for k in range(n)]
            used += n
            if cn and r.random() < .3: pk.append(pkg(g, calls[0]["pk"][0]["name"], cn) if calls[0]["pk"] else pkg(g, "q", cn))
            if pk and len({p["name"] for p in pk}) < len(pk): pk = pk[:-1]
            o = list(range(len(pk))); r.shuffle(o)
            calls.append(call(pk, o, sde=r.choice([-1, -1, 0, 1, 1700000000]), new=r.random() < .4))
        return dict(mode=mode, init=r.choice(["init", "init", "none"]), calls=calls)
    N = 2500 if ck.thorough else 700
    cases = [rand(r.choice(["mem", "dir", "dir", "lazy"])) for _ in range(N)]
    recs, src = play(ck, [({}, cases)], chunk=800)
    for rec in recs:
        if any(o["sc"] or o["tr"] for o in rec["outs"]): ck.distinct.add(json.dumps(rec["calls"]))
    ck.extra["scripts"] = sum(len(x["outs"][-1]["sc"]) for x in recs if x["outs"])
    ck.extra["triggers"] = sum(len(x["outs"][-1]["tr"]) for x in recs if x["outs"])
    ck.sample(next((dict(sc=[dict(s, c=s["c"][:30]) for s in x["outs"][-1]["sc"]], tr=x["outs"][-1]["tr"]) for x in recs if len(x["outs"]) > 1 and x["outs"][-1]["tr"] and len(x["outs"][-1]["sc"]) < 8), None))
    ck.assumptions += ["scripts are the regular members of the control section other than .PKGINFO"]
    ck.finish()
main(run)
