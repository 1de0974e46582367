import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
H = ["a", "s.a", "a:8443", "b", "xa", "b:8443"]

def run():
    ck = Check("C18", "model_checking",
      "cases = fetches of one or more indexes, keys or packages (one after another and in parallel), with credentials configured for hosts or written into URLs, redirected along chains of hosts, failing or not, with and without a cache; non-trivial = a case in which some credentials exist")
    ck.build()
    base = "INIT Init\nNEXT Next\nCONSTANTS AHosts = {%s}\n AShapes = {%s}\n AVariant = \"%s\"\n ALen = %d\n"
    four = '"a", "s.a", "a:8443", "b"'
    ck.model_check("AuthMC", base % (four if ck.thorough else '"a", "s.a", "b"', '"none", "up", "u"', "ok", 3) + "INVARIANTS Right NoLeak Sound\n", timeout=800)
    ck.model_check("AuthMC", base % (four + ', "xa"', '"none", "up", "u", "p"', "ok", 1) + "INVARIANTS Right NoLeak Sound\n", name="AuthMC(5 hosts)")
    for v, inv, hs, l in (("anyHost", "NoLeak", '"a", "b"', 1), ("keep", "NoLeak", '"a", "b"', 2), ("noEmpty", "Right", '"a"', 1), ("nameOnly", "Right", '"a", "a:8443"', 1), ("suffix", "NoLeak", '"a", "xa"', 1), ("drop", "Right", '"a"', 2)):
        out, _, _ = ck.tlc("AuthMC", base % (hs, '"none", "up", "u"', v, l) + "INVARIANT %s\n" % inv, expect_ok=False, name="AuthMC(%s)" % v)
        if "Invariant %s is violated" % inv not in out: raise CheckError("the model does not see defect " + v)
    r, T = ck.rng, 8 if ck.thorough else 1
    def case(**k):
        c = dict(cfg={h: r.choice(["none", "none", "up", "up", "u", "p"]) for h in H}, kind=r.choice(["index", "indexd", "key", "fetch", "install"]), targets=[], fail=[], cache=r.choice(["", "", "online", "offline"]), times=1,
                 odd=r.random() < .3, http=r.random() < .2, tag=r.random() < .7, code=r.choice([301, 302, 303, 307, 308]))
        c.update(k)
        if c["cache"]: c["times"] = 2
        # one package, key or index per target; a key's file name comes from its URL: one key at a time
        c["mustok"] = not any(c["fail"])
        return c
    cases = []
    # every kind, host, configured and embedded shape
    for kind in ("index", "indexd", "key", "fetch", "install"):
        for h in ("a", "a:8443", "s.a"):
            for s in ("none", "up", "u", "p"):
                for e in ("none", "up", "u", "p"):
                    for other in ("none", "up"):
                        for f in ("", "404", "conn"):
                            cfg = {g: other for g in H}; cfg[h] = s
                            cases.append(case(kind=kind, cfg=cfg, targets=[[dict(h=h, emb=e)]], fail=[f]))
    # every redirect
    for kind in ("index", "key", "fetch", "install"):
        for a in H:
            for b in H:
                for e in (("none", "none"), ("up", "none"), ("none", "up")):
                    for s in ("none", "up"):
                        cfg = {g: s for g in H}
                        if r.random() < .5: cfg[b] = "none"
                        cases.append(case(kind=kind, cfg=cfg, targets=[[dict(h=a, emb=e[0]), dict(h=b, emb=e[1])]], fail=[""]))
    ngen = len(cases)
    for _ in range(4000 * T):
        n = r.choice([1, 1, 2, 4, 7])
        cases.append(case(targets=[[dict(h=r.choice(H), emb=r.choice(["none"] * 4 + ["up", "u", "p"])) for _ in range(r.choice([1, 1, 1, 2, 3, 5]))] for _ in range(n)],
                          fail=[r.choice([""] * 6 + ["404", "401", "403", "500", "conn", "cut", "garbage", "loop"]) for _ in range(n)]))
    res = ck.run_cases("auth", cases)
    recs, src = [], []
    for c, x in zip(cases, res):
        if "reqs" not in x:
            if "skipped" not in x: ck.violation("crash", x, c)
            continue
        off = c["cache"] == "offline" and not (c["tag"] and c["kind"] in ("index", "key"))    # nothing may be there to read
        recs.append(dict(cfg=c["cfg"], targets=c["targets"], loop=[f == "loop" for f in c["fail"]], reqs=x["reqs"], errleak=bool(x["errleak"]), diskleak=bool(x["diskleak"]), hdrleak=bool(x["hdrleak"]), err=bool(x["errs"]),
                         mustok=c["mustok"] and not off))
        src.append((c, x))
        if any(v != "none" for v in c["cfg"].values()) or any(l["emb"] != "none" for t in c["targets"] for l in t): ck.distinct.add(json.dumps(c))
    ck.sample(src[0]); ck.sample(src[-1])
    ck.evals = ck.traces = len(recs)
    for i, b in sorted(ck.judge("AuthJudge", recs).items()):
        for cl in b: ck.violation(cl, src[i][1], src[i][0])
    ck.assumptions += ["credentials may follow a redirect to the same name or a subdomain of it, on any port (what net/http does)", "URLs that do not parse are not covered by the clause on messages"]
    ck.finish(enumerated=ngen, requests=sum(len(x["reqs"]) for x in recs))
main(run)
