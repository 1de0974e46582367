import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    ck = Check("C12", "model_checking",
      "cases = one download of a package or index through a scripted network (in-process transport or a TCP server that drops connections), with answers cut anywhere, ranges honoured, ignored, wrong or short, refusals and error statuses, and reads of any size; non-trivial = a download with at least one failure")
    ck.build()
    cst = "CONSTANTS RN = %d\n RVariant = \"%s\"\n"
    ck.model_check("RangeRetry", "SPECIFICATION Spec\nINVARIANTS Prefix CleanEnd Bounded\nPROPERTY Ends\n" + cst % (8 if ck.thorough else 5, "ok"))
    for v, inv in (("nodiscard", "Prefix"), ("skipend", "CleanEnd"), ("nocheck", "Prefix"), ("noend", "CleanEnd")):
        out, _, _ = ck.tlc("RangeRetry", "INIT Init\nNEXT Next\nINVARIANTS %s\n" % inv + cst % (4, v), expect_ok=False, name="RangeRetry(%s)" % v)
        if "Invariant %s is violated" % inv not in out: raise CheckError("the model does not see defect " + v)
    gen = os.path.join(ck.work, "gen.ndjson")
    ck.tlc("RangeGen", "INIT GInit\nNEXT GNext\nINVARIANT Generate\n", env={"GENOUT": gen}, workers=1)
    r, T = ck.rng, 10 if ck.thorough else 1
    def case(**k):
        c = dict(via="pkg", tcp=False, cache=False, n=5, block=r.choice([1, 3, 7, 100]), answers=[], then=r.choice(["full", "range"]), buf=[r.choice([1, 2, 5, 8, 64, 512, 4096])],
                 cutn=r.random() < .3, chunk=r.choice([0, 0, 1, 3]), chunked=r.random() < .2, nocr=False, cancel=-1)
        c.update(k)
        if any(a["kind"] in ("wrong", "short") for a in c["answers"]): c["nocr"] = False
        if any(a["kind"] == "short" for a in c["answers"]): c["chunked"] = False
        return c
    cases = [case(answers=json.loads(l)) for l in open(gen)]
    ngen = len(cases)
    def ans(n):
        k = r.choice(["full"] * 3 + ["range"] * 5 + ["wrong", "wrong", "short", "stub", "refused", "status"] if r.random() < .5 else ["full", "range"])
        return dict(kind=k, cut=r.randrange(0, n + 2))
    for i in range(3000 * T):
        n = r.choice([1, 2, 5, 9, 30])
        cases.append(case(n=n, block=r.choice([1, 2, 5, 33, 700]), answers=[ans(n) for _ in range(r.randrange(0, 12))], buf=[r.choice([0, 1, 2, 3, 10, 100, 5000]) for _ in range(3)] + [7],
                          cancel=r.randrange(0, 30) if r.random() < .1 else -1, cache=r.random() < .2, nocr=r.random() < .2, tcp=i % 6 == 0))
    # resources larger than the buffers of the http client
    for i in range(40 * T):
        n = 40
        cases.append(case(n=n, block=5003, answers=[ans(n) for _ in range(r.randrange(0, 8))], buf=[r.choice([100, 4096, 32768, 40000])], tcp=i % 2 == 0, chunk=0))
    for i in range(400 * T):
        n = r.choice([2, 3, 5, 9])
        cases.append(case(via="index", n=n, answers=[ans(n) for _ in range(r.randrange(0, 5))], tcp=i % 6 == 0, chunked=False))
    res = ck.run_cases("range", cases, case_timeout=60)
    recs = []
    for c, x in zip(cases, res):
        if "end" not in x:
            if "skipped" not in x: ck.violation("crash", x, c)
            continue
        recs.append(dict(x, via=c["via"], case=c))
        if len(x["reqs"]) > 1 or x["end"] == "error": ck.distinct.add(json.dumps(c))
    ck.sample(recs[0]); ck.sample(recs[-1])
    ck.evals = ck.traces = len(recs)
    for i, b in sorted(ck.judge("RangeJudge", recs).items()):
        for cl in b: ck.violation(cl, recs[i], recs[i])
    ck.assumptions += ["the resource does not change during the download (a complete answer shorter than what was already delivered must not be taken for its end); a 206 answer that does not declare its range (Content-Range) is the range asked for"]
    ck.finish(generated_schedules=ngen, complete=sum(x["end"] == "eof" for x in recs), gave_up=sum(x["end"] == "error" for x in recs))
main(run)
