import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import shutil
import resgen as g

def run():
    ck = Check("C24", "model_checking", "cases = histories of a root (repositories local and remote, tagged or not, republished; worlds edited; packages missing, damaged or exchanged) that is synchronised again and again; non-trivial = at least one package installed")
    ck.build()
    k = "SPECIFICATION SSpec\nINVARIANTS SOnce SDone SApart\nPROPERTIES SKeeps SFails SAgain\nCONSTANTS SVariant = \"%s\"\n SPubs = %d\n SSyncs = %d\n"
    ck.model_check("SyncMC", k % ("ok", 2, 4) if ck.thorough else k % ("ok", 2, 3), timeout=800)
    for v, w in (("all", "SOnce"), ("byver", "SOnce"), ("conflict", "SApart"), ("partial", "SFails")):
        out, _, _ = ck.tlc("SyncMC", k % (v, 2, 3), expect_ok=False, name="SyncMC(%s)" % v)
        if "Invariant %s is violated" % w not in out and "%s was violated" % w not in out and "property %s is violated" % w not in out: raise CheckError("the model does not see defect %s: %s" % (v, out[-600:]))
    ck.vhrun(["keys", os.path.join(ck.work, "keys"), "3"])
    shutil.copytree(os.path.join(ck.work, "keys"), os.path.join(ck.user_dir(), "keys"))
    for d, _, fs in os.walk(os.path.join(ck.user_dir(), "keys")):
        os.chmod(d, 0o755)
        for q in fs: os.chmod(os.path.join(d, q), 0o644)
    r, T = ck.rng, 8 if ck.thorough else 1
    def case(mode):
        repos = [dict(local=r.random() < .5, tag="edge" if k and r.random() < .2 else "") for k in range(r.choice([1, 2, 2, 3]))]
        if r.random() < .6: univ, world = g.unique_universe(r)
        else: univ, world = g.random_universe(r, acyclic=r.random() < .5, tags=False, iif=False, excl=.1)
        if r.random() < .4:         # exclusions of what may be installed already
            for p in r.sample(univ, min(len(univ), 2)):
                q = r.choice(univ)
                t, v = r.choice([(q["name"], q["ver"])] + [(y["n"], y["v"]) for y in q["prov"]])
                if q["name"] != p["name"]: p["deps"].append(g.C(t, neg=True) if r.random() < .5 or not v else g.C(t, r.choice(g.OPS), v, neg=True))
        # names that are prefixes of each other, and any characters of names
        names = sorted({p["name"] for p in univ} | {y["n"] for p in univ for y in p["prov"]} | {c["n"] for p in univ for c in p["deps"]} | {c["n"] for c in world})
        if r.random() < .7:
            pool = ["lib", "lib-dev", "lib-doc", "libx", "li", "lib-d", "x", "lib.1", "lib+", "lib_a", "a-lib", "LIB", "libx-dev", "so:lib.so.1", "so:lib.so", "cmd:x", "py3.11-lib", "py3.1-lib", "lib-1", "x11", "lib-1-dev", "x-libs"]
            ren = dict(zip(names, r.sample(pool, len(names)) if len(names) <= len(pool) else names))
            for p in univ:
                p["name"] = ren[p["name"]]
                for y in p["prov"] + p["deps"]: y["n"] = ren[y["n"]]
            for c in {id(c): c for c in world}.values(): c["n"] = ren[c["n"]]
        arch = r.choice(["x86_64", "x86_64", "aarch64"])
        us, bs = [], []
        def add(p, repo):
            i = len(us) + 1
            us.append(dict(p, id=i, tag=repos[repo]["tag"]))
            bs.append(dict(p=dict(name=p["name"], ver=p["ver"], org=p["org"], signed=r.random() < .5, extra=["depend = " + g.cs(x) for x in p["deps"]] + ["provides = " + g.ps(x) for x in p["prov"]], es=[dict(p=["usr"], k="dir", perm=0o755), dict(p=["usr", "share"], k="dir", perm=0o755), dict(p=["usr", "share", p["name"]], k="reg", c="build %d " % i, perm=0o644)]),
                           repo=repo, arch=r.choice([arch, arch, "noarch"]), deps=" ".join(g.cs(c) for c in p["deps"]), prov=" ".join(g.ps(x) for x in p["prov"]), prio=p["prio"]))
            return i
        key = lambda i: (bs[i - 1]["repo"], us[i - 1]["name"], us[i - 1]["ver"])
        pub = {}
        for p in univ:
            i = add(p, r.randrange(len(repos)))
            if key(i) not in pub: pub[key(i)] = i
        steps, loaded = [], set()
        use = list(range(len(repos)))
        clean = r.random() < .3
        for n in range(r.choice([1, 2, 3, 4])):
            if n:
                for q in list(pub):
                    if not repos[q[0]]["local"] or r.random() < .7: continue
                    u = r.random()
                    if u < .5: pub[q] = add(us[pub[q] - 1], q[0])      # built again
                    elif u < .7: del pub[q]
                    else:
                        p = dict(us[pub[q] - 1], ver=r.choice(g.VERS))
                        if (q[0], p["name"], p["ver"]) not in pub:
                            i = add(p, q[0]); pub[key(i)] = i
                if r.random() < .3: use = r.sample(range(len(repos)), r.randrange(1, len(repos) + 1))
                u = r.random()
                if u < .25: world = [g.C(r.choice([p["name"] for p in univ])) for _ in range(r.choice([1, 1, 2]))]
                elif u < .6: world = world[:-1] if r.random() < .3 else world + [g.C(r.choice([p["name"] for p in univ]))]
            have = sorted(pub.values())
            fault = {}
            if not clean and r.random() < .4:
                for i in r.sample(have, min(len(have), r.choice([1, 1, 2, 5]))):
                    same = [j for j in range(1, len(us) + 1) if j != i and us[j - 1]["name"] == us[i - 1]["name"]]
                    fault[str(i)] = r.choice([-1, -2, -3] + same * 2 + [r.randrange(1, len(us) + 1)])
                    if fault[str(i)] == i: fault[str(i)] = -1
                    if repos[bs[i - 1]["repo"]]["local"] and fault[str(i)] == -3: fault[str(i)] = -1
            down = [k for k in use if not repos[k]["local"]] if not clean and r.random() < .05 else []
            steps.append(dict(pub=have, repos=use, world=[g.cs(c) + ("@edge" if not c["neg"] and "@" not in g.cs(c) and any(repos[k]["tag"] for k in use) and r.random() < .2 else "") for c in world],
                              wc=world, fault=fault, down=down, reopen=r.random() < .4, order=r.choice(["rcf", "rf", "frc", "fcr", "rCf", "rfC"])))
            if r.random() < .25: steps.append(dict(steps[-1], reopen=r.random() < .5))       # once more
        return dict(repos=repos, builds=bs, cache=r.random() < .3, mode=mode, arch=arch, steps=steps), us
    cases = [case("mem") for _ in range(2200 * T)]
    user = [case("dir") for _ in range(150 * T)]
    res = ck.run_cases("sync", [c for c, _ in cases], case_timeout=60) + ck.run_cases("sync", [c for c, _ in user], case_timeout=60, as_user=True)
    recs, src, did, fails, tried, retried = [], [], 0, 0, 0, 0
    for (c, us), x in zip(cases + user, res):
        if "steps" not in x:
            if "skipped" not in x: ck.violation("crash", x, c)
            continue
        loaded, left, stuck = set(), set(), set()
        for st, o in zip(c["steps"], x["steps"]):
            offered = [i for i in st["pub"] if c["builds"][i - 1]["repo"] in st["repos"]]
            down = any(k not in loaded for k in st["down"])
            loaded |= {k for k in st["repos"] if k not in st["down"] and not c["repos"][k]["local"]} if not down else set()
            world = [dict(w, pin="edge" if s.endswith("@edge") else "") for w, s in zip(st["wc"], st["world"])]
            bad = [int(i) for i in st["fault"]]
            if st["reopen"]: stuck |= left           # a new object does not know whose they are
            again = c["cache"] and bool(left)
            rec = dict(left=sorted(left), stuck=sorted(stuck), soft=bad if again else [], univ=us, pub=offered, world=world, down=down, bad=[] if again else bad, cok=False, calc=[], cwant=o["res"])
            for q in ("rok", "res", "before", "after", "fok", "same", "files", "reqs", "clean", "open", "cok", "calc", "extra"):
                if q in o: rec[q] = o[q]
            if "cok" not in o: rec["cok"], rec["calc"] = o["rok"], o["res"]
            if o["rok"] and not o["fok"]: left |= {us[i - 1]["name"] for i in o["res"] if i}; tried += 1
            elif o["fok"]:
                if left: retried += 1
                now = {us[i - 1]["name"] for i in o["after"] if i}
                left -= now; stuck -= now
            did += o["after"] != o["before"]; fails += not o["fok"]
            recs.append(rec); src.append((c, st, o))
            if o["after"]: ck.distinct.add(json.dumps([us, rec["pub"], rec["world"], o["before"]]))
    ck.evals = ck.traces = len(recs)
    ck.sample(src[0][2]); ck.sample(src[-1][2])
    if not (did > len(recs) / 8 and fails > len(recs) / 20): raise CheckError("the cases are vacuous: %d of %d" % (did, len(recs)))
    for i, b in sorted(ck.judge("SyncJudge", recs, consts='CONSTANT SVariant = "ok"\n').items()):
        for cl in b: ck.violation(cl, src[i][1:], src[i][0])
    ck.assumptions += ["a new object meets files that a failed attempt left, and may refuse to overwrite them", "remote indexes are read once in a process", "installed packages are never upgraded or removed (the code's documented behaviour)"]
    ck.finish(installs=did, failures=fails, failed_installations=tried, done_after_a_failure=retried)
main(run)
