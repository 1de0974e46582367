import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    ck = Check("C20", "model_checking",
      "cases = passwd and group files with well-formed and malformed lines, loaded, edited, written and loaded again through the in-memory filesystem, some with a filesystem operation failing on the way; non-trivial = a file with at least one line or edit")
    ck.build()
    ck.model_check("PasswdMC", "INIT Init\nNEXT Next\nCONSTRAINT Bound\nINVARIANTS WellFormed Faithful Fixpoint\n", timeout=600)
    r, T = ck.rng, 10 if ck.thorough else 1
    ids = ["0", "1", "65534", "1000", "2147483647", "2147483648", "4294967295"]
    badids = ["4294967296", "-1", "+5", "18446744073709551616", "4294967297", "9999999999999999999999", "0x1", "1_0", "1.0", "", " 1", "1e3", "-4294967295", "-", "٣"]
    txt = lambda: r.choice(["", "x", "Some One,,,", "/home/u", "/bin/sh", "a b", "ü", "*", "!!", "#c", "a,b"])
    name = lambda: r.choice(["root", "nobody", "u%d" % r.randrange(9), "a.b-c_d", "", "0"])
    def mem():
        m = [r.choice(["u", "v", "root", "x1"]) for _ in range(r.choice([0, 0, 1, 2, 5]))]
        if len(m) > 1 and r.random() < .15: m[r.randrange(len(m))] = ""       # "u,,v": kept as it is
        return m
    def ent(g):
        return {"name": name(), "pw": r.choice(["x", "", "!"]), "gid": r.choice(ids), "members": mem()} if g else \
               {"name": name(), "pw": r.choice(["x", "", "!"]), "uid": r.choice(ids), "gid": r.choice(ids), "info": txt(), "home": txt(), "shell": r.choice(["/bin/sh", "", "/sbin/nologin", "a b"])}
    def line(g, e):
        return ":".join([e["name"], e["pw"], e["gid"], ",".join(e["members"])] if g else [e["name"], e["pw"], e["uid"], e["gid"], e["info"], e["home"], e["shell"]])
    cases = []
    for i in range(6000 * T):
        g = i % 2 == 0
        n = r.choice([0, 1, 2, 3, 6])
        es = [ent(g) for _ in range(n)]
        ls = [line(g, e) for e in es]
        if r.random() < .35 and ls:
            k = r.randrange(len(ls))
            m = r.randrange(6)
            e = dict(es[k])
            if m <= 2:
                e[r.choice(["gid"] if g else ["uid", "gid"])] = r.choice(badids); ls[k] = line(g, e)
            elif m == 3: ls[k] += ":x"
            elif m == 4: ls[k] = ls[k].replace(":", ";", 1)
            else:
                e[r.choice(["gid"] if g else ["uid", "gid"])] = r.choice(["007", "00", "04294967295", "000000000000000000000000000001"]); ls[k] = line(g, e)
        if any(l != l.strip() or not l for l in ls): continue
        edits, m = [], n
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            o = r.choice(["append", "set", "del"])
            if o == "append": edits.append({"op": o, "i": 0, "e": ent(g)}); m += 1
            elif m and o == "set": edits.append({"op": o, "i": r.randrange(1, m + 1), "e": ent(g)})
            elif m and o == "del": edits.append({"op": o, "i": r.randrange(1, m + 1), "e": ent(g)}); m -= 1
        # (an entry whose line starts with white space or has members with commas cannot be written)
        cases.append({"group": g, "lines": ls, "nonl": r.random() < .2, "create": r.random() < .5, "edits": edits,
                      "phase": "" if r.random() < .7 else r.choice(["load", "write", "write"]), "fault": r.choice([1, 2, 3, 4, 5, 6, 8])})
    res = ck.run_cases("passwd", cases)
    recs, faults = [], 0
    for c, x in zip(cases, res):
        if "ok" not in x:
            if "skipped" not in x: ck.violation("crash", x, c)
            continue
        x.pop("err", None)
        faults += x["lfired"] + x["wfired"]
        recs.append({**{k: c[k] for k in ("group", "lines", "edits")}, **x})
        if c["lines"] or c["edits"]: ck.distinct.add(json.dumps([c["lines"], c["edits"]]))
    ck.sample(recs[0]); ck.sample(recs[1])
    ck.evals = ck.traces = len(recs)
    for i, b in sorted(ck.judge("PasswdJudge", recs).items()):
        for cl in b: ck.violation(cl, recs[i], recs[i])
    ck.finish(fault_points_hit=faults)
main(run)
