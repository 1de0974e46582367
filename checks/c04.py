import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from instgen import *
import itertools

M = 'SPECIFICATION MSpec\nINVARIANTS InOrder NothingAhead Outcome DbExact\n%sCONSTANTS IPkgs=%d ILimit=%d IVariant="%s"\n'

def run():
    ck = Check("C04", "model_checking",
      "cases = histories of up to three installations of lists of packages, with the order in which fetches complete, failures and cancellation chosen; non-trivial = a call with at least two packages, or a failing one")
    ck.build()
    ck.model_check("InstallMC", M % ("PROPERTY Ends\n", 3, 2, "ok"))
    ck.model_check("InstallMC", M % ("PROPERTY Ends\n", 4, 3, "ok"))
    if ck.thorough: ck.model_check("InstallMC", M % ("PROPERTY Ends\n", 5, 3, "ok"), timeout=800)
    for v, l, p in (("anyorder", 3, ""), ("dbearly", 3, ""), ("nostop", 3, "PROPERTY Ends\n"), ("ok", 1, "PROPERTY Ends\n")):
        out, _, _ = ck.tlc("InstallMC", M % (p, 3, l, v), expect_ok=False, name="InstallMC(%s,%d)" % (v, l))
        if " is violated" not in out and " was violated" not in out: raise CheckError("the model does not see %s with limit %d" % (v, l))
    r = ck.rng
    # every order of completion and every single failure of three packages
    def exhaustive():
        out = []
        for o in itertools.permutations(range(3)):
            for bad in [None, 0, 1, 2]:
                for clash in (False, True):
                    mode = r.choice(["mem", "dir", "lazy"])
                    g = Gen(r, mode)
                    pk = [g.pkg("p%d" % k, g.tree("p%d" % k, 4), local=False) for k in range(3)]
                    if clash and mode != "lazy":
                        k = r.choice([1, 2])
                        pk[0]["es"].append(g.entry("shared", "reg", c="one", perm=0o644))
                        pk[k]["es"].append(g.entry("shared", "reg", c="two", perm=0o644)); pk[k]["org"] = "other"
                    if bad is not None: spoil(r, pk[bad])
                    out.append(dict(mode=mode, init="init", calls=[call(pk, list(o))]))
        return out
    def rand():
        mode = r.choice(["mem", "mem", "dir", "lazy"])
        g = Gen(r, mode)
        calls = []
        for cn in range(r.choice([1, 1, 2, 3])):
            n = r.choice([0, 1, 2, 3, 4, 5, 7, 12])
            names = ["p%d" % k for k in range(14)]; r.shuffle(names)
            both = r.choice(["same", "more"])
            pk = [g.pkg(nm, g.tree("c%d%s" % (cn, nm), 5, shared=[("usr/share/common%d" % cn, both)] if r.random() < .3 else ())) for nm in names[:n]]
            for p in pk:
                if r.random() < .05: spoil(r, p)
                if cn and p.get("bad") == "noinfo": p["bad"] = "404"      # not looked at if it is installed already
            o = list(range(n)); r.shuffle(o)
            calls.append(call(pk, o, sde=r.choice([-1, -1, 0, 1700000000]), cancel=r.choice([-1] * 9 + [r.randrange(n + 1)]), new=r.random() < .3))
        return dict(mode=mode, init=r.choice(["init", "init", "none"]), calls=calls)
    # the code runs up to GOMAXPROCS fetches at a time
    N = 1500 if ck.thorough else 180
    batches = [({"GOMAXPROCS": str(k)}, exhaustive() + [rand() for _ in range(N)]) for k in (1, 2, 3, 8)]
    recs, src = play(ck, batches)
    for rec in recs:
        if any(len(c["pk"]) > 1 or c["fail"] for c in rec["calls"]): ck.distinct.add(json.dumps(rec["calls"]))
    ck.extra["calls_failed"] = sum(o["err"] for x in recs for o in x["outs"])
    ck.extra["calls_done"] = sum(not o["err"] for x in recs for o in x["outs"])
    ck.sample(next((dict(order=c["calls"][0]["order"], released=x["outs"][0]["done"], env=e, err=x["outs"][0]["msg"]) for c, x, e in src if len(x["outs"][0]["done"]) > 2), None))
    ck.sample(next((dict(outs=[dict(msg=o["msg"], idb=[d["name"] for d in o["idb"]]) for o in x["outs"]]) for c, x, e in src if len(x["outs"]) == 3), None))
    ck.assumptions += ["no package name is listed twice in one call", "fetches complete one after the other; the code's own work between them is scheduled by the Go runtime"]
    ck.finish()
main(run)
