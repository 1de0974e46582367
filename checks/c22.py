import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    ck = Check("C22", "model_checking",
      "cases = one unsigned, signed or broken index file, signed without a fault, with a broken key, with writes failing after N bytes, or with the process killed at the N-th system call of a kind, then signed again; non-trivial = a case that actually changed the file, failed or died")
    ck.build()
    consts = "CONSTANTS SNChunks = %d\n SKeys = {1, 2}\n SStrategy = \"%s\"\n"
    spec = "INIT Init\nNEXT Next\nCONSTRAINT SBound\n"
    ck.model_check("SignIndex", spec + consts % (6 if ck.thorough else 4, "replace") + "INVARIANTS Complete DoneIsNew\nPROPERTIES OnceSigned KeepsMode\n")
    out, _, _ = ck.tlc("SignIndex", spec + consts % (3, "inplace") + "INVARIANTS Complete\n", expect_ok=False, name="SignIndex(inplace)")
    if "Invariant Complete is violated" not in out:
        raise CheckError("the model does not see that rewriting in place is unsafe")
    ck.vhrun(["keys", os.path.join(ck.work, "keys"), "3"])
    r, T = ck.rng, 8 if ck.thorough else 1
    def base(**k):
        a, b = r.sample([1, 2, 3], 2)
        c = {"n": r.choice([0, 1, 2, 5, 40]), "desc": r.choice(["", "d", "repo x"]), "shape": r.choice(["api", "api", "multi"]),
             "mode": r.choice([0o644, 0o600, 0o640, 0o664]), "link": r.random() < .25, "key": a, "key2": b, "fault": "none", "cap": 0, "sys": ""}
        c.update(k)
        return c
    cases = [base(n=n, shape=s, link=l) for n in (0, 1, 2, 17, 300) for s in ("api", "multi") for l in (False, True)]
    cases += [base(n=r.randrange(60)) for _ in range(120 * T)]
    cases += [base(fault=f) for f in ("nokey", "badpem", "pubpem", "encrypted") for _ in range(6 * T)]
    cases += [base(fault="signed", cap=k % 5) for k in range(20 * T)]
    cases += [base(fault="corrupt", cap=r.randrange(0, 1000)) for k in range(20 * T)]
    # a write that fails (error or signal) after N bytes
    cases += [base(fault=f, cap=n, n=5) for f in ("cap", "capign") for n in [0, 1, 2, 10, 100, 200, 300, 350, 400, 450, 500, 600, 700, 800] + [r.randrange(0, 900) for _ in range(10 * T)]]
    # killed at the N-th call
    try:
        trace_ok = subprocess.run(["strace", "-qq", "-o", "/dev/null", "true"], capture_output=True, timeout=20).returncode == 0
    except Exception:
        trace_ok = False
    if trace_ok:
        for s, m in (("openat", 14), ("write", 10), ("pwrite64", 2), ("rename,renameat,renameat2", 3), ("unlink,unlinkat", 4), ("fchmod,fchmodat,chmod", 3), ("ftruncate,truncate", 2), ("close", 12), ("fsync,fdatasync", 2)):
            cases += [base(fault="kill", sys=s, cap=k, n=nn) for k in range(1, m + 1) for nn in ((3, 200) if ck.thorough else (3,))]
    else:
        ck.assumptions.append("strace is not usable here: crash points are explored through write limits only")
    res = ck.run_cases("signidx", cases, case_timeout=60)
    recs, kills = [], 0
    for c, x in zip(cases, res):
        if "state" not in x:
            if "skipped" not in x: ck.violation("crash", x, c)
            continue
        recs.append({**c, **x})
        kills += x["died"] != ""
        if x["state"] != "old" or x["err"] or x["died"]: ck.distinct.add(json.dumps(c))
    ck.sample(recs[1]); ck.sample(recs[-1])
    ck.evals = ck.traces = len(recs)
    for i, b in sorted(ck.judge("SignJudge", recs).items()):
        for cl in b: ck.violation(cl, recs[i], recs[i])
    ck.assumptions += ["signatures are verified independently with crypto/rsa; RSA, SHA-1 and rename atomicity of the kernel are trusted"]
    ck.finish(crash_points_hit=kills)
main(run)
