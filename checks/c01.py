import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def q(xs): return "{" + ", ".join('"%s"' % x for x in xs) + "}"

def run():
    ck = Check("C01", "model_checking",
      "cases = all pairs of a TLC-enumerated structured version set, all token strings up to a length, seeded random versions, "
      "and every operator x required version against one repository; non-trivial = the pair/selection is not decided by string equality")
    ck.build()
    nums = ["0", "1", "1.0", "1.2", "1.10", "2", "01"]
    lets = ["", "a", "b"]
    pres = ["", "_alpha", "_alpha1", "_rc", "_rc2"] if not ck.thorough else ["", "_alpha", "_alpha1", "_beta", "_pre", "_pre2", "_rc", "_rc10"]
    posts = ["", "_p", "_p1"] if not ck.thorough else ["", "_cvs", "_git", "_git20200101", "_p", "_p1"]
    revs = ["", "-r0", "-r2"]
    toks = ["0", "1", "12", ".", "a", "z", "_alpha", "_beta", "_pre", "_rc", "_cvs", "_svn", "_git", "_hg", "_p", "-r", "_", "-", "A", " ", "r3", "~", "b1"]
    # 1. laws on the specification (small set for triples) and generation of the cases
    mc = ('INIT Init\nNEXT Next\nINVARIANTS AllValid Reflexive Antisymmetric Transitive EqCongruent Trichotomy LeGe TildeContainsEq\n'
          'CONSTANTS Nums = %s Lets = %s Pres = %s Posts = %s Revs = %s Tokens = {} MaxTok = 0\n')
    if ck.thorough:
        ck.model_check("VersionMC", mc % (q(["0", "1", "1.0", "1.2", "10"]), q(["", "b"]), q(["", "_alpha", "_rc2"]), q(["", "_cvs", "_p1"]), q(["", "-r1"])), timeout=900)
    else:
        ck.model_check("VersionMC", mc % (q(["1", "1.0", "10"]), q(["", "b"]), q(["", "_rc2"]), q(["", "_p1"]), q(["", "-r1"])))
    gen = os.path.join(ck.work, "gen.ndjson")
    ck.tlc("VersionMC", 'INIT Init\nNEXT Next\nCONSTRAINT Stop\nINVARIANT Generate\nCONSTANTS Nums = %s Lets = %s Pres = %s Posts = %s Revs = %s Tokens = %s MaxTok = %d\n'.replace("CONSTRAINT Stop\n", "")
           .replace("INIT Init\nNEXT Next", "INIT GInit\nNEXT GNext") % (q(nums), q(lets), q(pres), q(posts), q(revs), q(toks), 4 if ck.thorough else 3),
           env={"GENOUT": gen}, name="VersionMC/generate")
    g = json.loads(open(gen).read())
    versions, strings = sorted(g["versions"]), sorted(g["strings"])
    # 2. random versions with large and unusual components
    def rv():
        r = ck.rng
        num = lambda: r.choice([str(r.randrange(0, 40)), str(r.randrange(0, 10**r.randrange(1, 19))), "0" * r.randrange(1, 3) + str(r.randrange(0, 100)), "9223372036854775807"])
        s = ".".join(num() for _ in range(r.randrange(1, 6)))
        if r.random() < .4: s += r.choice("abcxyz")
        if r.random() < .4: s += r.choice(["_alpha", "_beta", "_pre", "_rc"]) + (num() if r.random() < .6 else "")
        if r.random() < .4: s += r.choice(["_cvs", "_svn", "_git", "_hg", "_p"]) + (num() if r.random() < .6 else "")
        if r.random() < .5: s += "-r" + num()
        return s
    rnd = sorted({rv() for _ in range(220 if ck.thorough else 110)})
    def mutate(s):
        r = ck.rng
        i = r.randrange(len(s) + 1)
        k = r.randrange(4)
        if k == 0: return s[:i] + r.choice("0.a_-rp~ Z\n\t=é") + s[i:]
        if k == 1 and s: return s[:i] + s[i + 1:]
        if k == 2: return s + r.choice(["_p", "-r", "-r1", "_rc_p", "99999999999999999999", ".", "\n"])
        return s[:i] + s[i:][::-1]
    strings = sorted(set(strings) | set(versions) | set(rnd) | {mutate(mutate(s) if ck.rng.random() < .3 else s) for s in rnd for _ in range(6)}
                     | {"9223372036854775808", "1.9223372036854775808", "1-r9223372036854775808", "1_rc9223372036854775808", "1_p99999999999999999999", "18446744073709551617"})
    strings = [s for s in strings if all(c in "\n\té" or 32 <= ord(c) < 127 for c in s)]
    res = ck.run_cases("version", [{"kind": "parse", "s": s} for s in strings])
    recs, src = [], []
    for s, r in zip(strings, res):
        if "accepted" not in r:
            ck.violation("parse:crash", (s, r), s); continue
        recs.append({"kind": "parse", "s": s, "accepted": r["accepted"]}); src.append(s)
        if r["accepted"]: ck.distinct.add(s)
    # 3. all pairs of a sample of the structured set + random ones + near pairs
    base = versions if ck.thorough else ck.rng.sample(versions, 130)
    if ck.thorough: base = ck.rng.sample(versions, 330)
    base = sorted(set(base) | set(rnd[:70]))
    near = []
    for s in versions:           # each version against its single-component neighbours
        for t in ck.rng.sample(versions, 6): near.append((s, [t]))
    okset = {s for s, r in zip(strings, res) if r.get("accepted")}
    base = [s for s in base if s in okset]
    cases = [{"kind": "cmp", "a": s, "b": base} for s in base] + [{"kind": "cmp", "a": s, "b": [x for x in t if x in okset]} for s, t in near if s in okset]
    res = ck.run_cases("version", cases)
    for c, r in zip(cases, res):
        if "cmp" not in r:
            ck.violation("cmp:crash", (c["a"], r), c); continue
        for b, v in zip(c["b"], r["cmp"]):
            recs.append({"kind": "cmp", "a": c["a"], "b": b, "cmp": v})
            if c["a"] != b: ck.distinct.add((c["a"], b))
    # 4. requests: every operator x required version against one repository
    bad = ["", "x", "1.2-3", "1_foo"]
    have = sorted(set(ck.rng.sample(versions, 60) + ["1.2.3", "1.2.0", "1.2.3-r1", "1.2a", "1.2_rc1", "1.2_p1", "1.2-r1", "1.2-r10", "1.20"]) & okset | {"1.2.3", "1.2-r1"}) + bad
    reqs = sorted(set(ck.rng.sample(versions, 60 if not ck.thorough else 300) + rnd[:20]) & okset) + ["1.2", "1.2.3", "1", "1.2-r1", "1.2_rc1", "x", "1.2-3", "1..2"]
    cases = [{"kind": "select", "have": have, "request": "p" + op + v, "op": op, "ver": v} for op in ["=", "<", ">", "<=", ">=", "~"] for v in reqs]
    cases.append({"kind": "select", "have": have, "request": "p", "op": "", "ver": ""})
    res = ck.run_cases("version", cases)
    for c, r in zip(cases, res):
        if "got" not in r:
            ck.violation("select:crash", (c["request"], r), c); continue
        recs.append({"kind": "select", "op": c["op"], "ver": c["ver"], "have": c["have"], "got": r["got"]})
        if len(r["got"]) not in (0, len(have)): ck.distinct.add(c["request"])
    for k in ("parse", "cmp", "select"):
        ck.sample(next((x for x in recs if x["kind"] == k and x.get("s") != ""), None))
    ck.evals = ck.traces = len(recs)
    for i, b in sorted(ck.judge("VersionJudge", recs).items()):
        for cl in b:
            ck.violation(cl, recs[i] if recs[i]["kind"] != "select" else {k: recs[i][k] for k in ("op", "ver", "got")}, recs[i])
    ck.finish(exhaustive=False)
main(run)
