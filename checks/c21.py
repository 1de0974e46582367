import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    ck = Check("C21", "model_checking",
      "cases = one archive as data or control section, signed or not, seen through both views with a full walk and questions about many names, repeated concurrently; non-trivial = an archive with a link, an implicit directory or a repeated name")
    ck.build()
    cfg = "INIT AInit\nNEXT ANext\nINVARIANTS %s\nCONSTANTS AMax=%d AVariant=\"%s\"\n"
    n = 3 if ck.thorough else 2
    ck.model_check("ArcMC", cfg % ("Listed Resolved HardSame NoFollow", n, "ok"))
    for v, inv in (("hardrel", "HardSame"), ("noimplicit", "Listed")):
        out, _, _ = ck.tlc("ArcMC", cfg % (inv, 2, v), expect_ok=False, name="ArcMC(%s)" % v)
        if "Invariant %s is violated" % inv not in out: raise CheckError("the model does not tell " + v)
    out, _, _ = ck.tlc("ArcMC", cfg % ("AGenPrint", 2, "ok"), workers=1, name="ArcMC(gen)")
    gen = list(printed(out, "GEN"))
    if not ck.thorough: gen = ck.rng.sample(gen, min(700, len(gen)))
    r, T = ck.rng, 10 if ck.thorough else 1
    Q0 = [["a"], ["d"], ["a", "b"], ["d", "e"], ["d", "e", "f"], ["a", "b", "c"], ["a", "e", "f"], ["a", "e"], ["zz"], []]
    OPS = ["open", "stat", "readdir", "readlink"]
    def ask(ps): return [dict(op=o, p=p) for p in ps for o in OPS]
    def spell(p, k):
        s = "/".join(p); d = "/" if k == "dir" else ""
        return r.choice(["", "", "", "./" + s + d, "/" + s + d, s.replace("/", "//", 1) + d, s, s + d, "./" + s])
    def case(ms, qs, **k):
        return dict(ms=[dict(m, raw=m.get("raw", "")) for m in ms], where=r.choice(["data", "control"]), signed=r.random() < .3, blk=1, qs=qs, **k)
    cases = [case(g, ask(Q0)) for g in gen]
    ngen = len(cases)
    NM = ["a", "b", "c", "usr", "lib", "a b", "ü", "x" * 120, ".h", "A", "..."]
    def archive():
        ms, dirs = [], [[]]
        for i in range(r.choice([1, 3, 6, 10, 25])):
            p = r.choice(dirs) + [r.choice(NM) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            k = r.choice(["file", "file", "dir", "link", "link", "hard", "dev"])
            m = dict(p=p, k=k, perm=r.choice([0o644, 0o755, 0o600, 0o4755, 0o1777, 0o2711, 0]), data=[], abs=False, tg=[])
            if k == "file": m["data"] = [r.randrange(256) for _ in range(r.choice([0, 1, 5, 511, 512, 513, 3000]))]
            known = [x["p"] for x in ms] + [x["p"][:-1] for x in ms if len(x["p"]) > 1] + [p, ["nowhere"]]
            if k == "hard": m["tg"] = r.choice(known) or ["."]
            if k == "link":
                t = r.choice(known); u = r.random()
                if u < .3: m.update(abs=True, tg=t or ["."])
                elif u < .8:
                    ups = len(p) - 1; c = 0
                    while c < min(len(t), ups) and t[c] == p[c] and r.random() < .9: c += 1
                    m["tg"] = [".."] * (ups - c) + t[c:] or ["."]
                else: m["tg"] = r.choice([["..", "..", "..", "a"], [".", "a"], ["a", "", "b"], ["a", ".."], ["lib", ""], [".."], ["."], ["usr", ".", "lib"]])
                if not m["abs"] and m["tg"][0] == "": m["tg"] = ["a"]
            ms.append(m)
            if k == "dir" or r.random() < .1: dirs.append(p)
        for m in ms:
            if r.random() < .4: m["raw"] = spell(m["p"], m["k"])
            if m["k"] != "dir" and m.get("raw", "").endswith("/"): m["raw"] = ""
        if r.random() < .2: ms.insert(r.randrange(len(ms) + 1), dict(p=[], k="dir", perm=0o700, data=[], abs=False, tg=[], raw=r.choice(["./", ".", "/"])))
        ps = [m["p"] for m in ms]
        qs = ps + [p + [r.choice(NM)] for p in ps] + [p[:-1] for p in ps] + [p + r.choice(ps) for p in ps] + [[], ["nope"], ["a", "nope"]]
        # through the links: names below what they point to
        for m in ms:
            if m["k"] == "link":
                for x in ms:
                    t = [c for c in m["tg"] if c not in ("", ".", "..")]
                    if t and x["p"][:len(t)] == t: qs.append(m["p"] + x["p"][len(t):])
        qs = [q for i, q in enumerate(qs) if q not in qs[:i]]
        return ms, qs[:80]
    for i in range(600 * T):
        ms, qs = archive(); cases.append(case(ms, ask(qs)))
    for i in range(6 * T):
        ms, qs = archive()
        for m in ms: m["data"] = m["data"][:3]
        c = case(ms, ask(qs)); c["blk"] = r.choice([70000, 600001]); cases.append(c)
    # chains of links: followed up to a length every system follows, and circles
    for n in (1, 5, 20, 39, 100, 300):
        for hard in (False, True):
            ms = [dict(p=["f"], k="file", perm=0o644, data=[7], abs=False, tg=[])]
            for j in range(n): ms.append(dict(p=["l%d" % j], k="hard" if hard else "link", perm=0o777, data=[], abs=False, tg=["f" if j == 0 else "l%d" % (j - 1)]))
            if n < 100: cases.append(case(ms, ask([["l%d" % (n - 1)], ["f"]])))
            ms[0] = dict(p=["f"], k="link", perm=0o777, data=[], abs=hard, tg=["l%d" % (n - 1)]); cases.append(case(ms, ask([["l%d" % (n - 1)], ["f"], ["f", "x"], ["l0"]])))
    for ms in ([], [dict(p=["e"], k="dir", perm=0o755, data=[], abs=False, tg=[])]): cases.append(case(ms, ask([[], ["e"], ["x"]])))
    res = ck.run_cases("arc", cases, case_timeout=60)
    recs = []
    for c, x in zip(cases, res):
        if "recs" not in x:
            if "skipped" not in x: ck.violation("hang" if "hang" in x else "panic", x, c)
            continue
        # an empty section, or one without the first blocks a tar needs, is not a package
        if not c["ms"] and c["where"] == "control" : continue
        for y in x["recs"]: recs.append(dict(y, ms=c["ms"], where=c["where"], blk=c["blk"]))
        if any(m["k"] in ("link", "hard") for m in c["ms"]): ck.distinct.add(json.dumps(c["ms"]))
    ck.sample({k: recs[5][k] for k in ("view", "ms", "walk")}); ck.sample({k: recs[-9][k] for k in ("view", "ms", "walk")})
    ck.evals = sum(len(x["qs"]) + 1 for x in recs); ck.traces = len(recs)
    for i, b in sorted(ck.judge("ArcJudge", recs, consts="CONSTANT AVariant = \"ok\"\n", chunk=1500).items()):
        for cl in b:
            o = cl.split("-")[0]
            ck.violation(recs[i]["view"] + ":" + cl, dict(err=recs[i]["err"], ms=recs[i]["ms"], walk=recs[i]["walk"] if cl == "walk" else 0, q=[q for q in recs[i]["qs"] if q["op"] == o][:40]), recs[i])
    ck.assumptions += ["archives in which a member lies below something that is not a directory are only required not to panic or hang", "the size and mode a view reports for the name of a hard link itself are not specified", "links are followed at least 64 deep, circles end in an error"]
    ck.finish(generated=ngen)
main(run)
