import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import base64

def rand_pkg(r, full=False):
    w = lambda: "".join(r.choice("abcxyz019.-_+:=<>~!@/") for _ in range(r.randrange(1, 9)))
    words = lambda: [w() for _ in range(r.choice([0, 0, 1, 2, 5]))]
    text = lambda: r.choice(["", "", "text", "a b  c", "x:y", "P:fake", " lead", "trail ", "#;'\"\\ {{.Name}} <&>", "ünïcödé", "tab\there", "é" * 50])
    num = lambda: r.choice(["0", "0", str(r.randrange(1, 2**r.randrange(1, 64))), "18446744073709551615"])
    p = lambda: full or r.random() < .7
    return {"name": r.choice([w(), w(), w(), w(), ""]), "ver": r.choice(["1.2-r0", "", w()]), "arch": text() if p() else "", "desc": text() if p() else "", "lic": text() if p() else "",
            "org": text() if p() else "", "maint": text() if p() else "", "url": text() if p() else "",
            "sum": "Q1" + base64.b64encode(bytes(r.randrange(256) for _ in range(r.choice([20, 20, 1, 33])))).decode() if p() else "",
            "deps": words() if p() else [], "prov": words() if p() else [], "iif": words() if p() else [], "size": num(), "isize": num(), "prio": num(),
            "t": r.choice(["", "0", "1", str(r.randrange(2**33)), "-5", "-62135596801"]), "commit": text() if p() else ""}

def run():
    ck = Check("C17", "model_checking",
      "cases = seeded random indexes written and read back, index texts mutated line by line, and cut or bit-flipped archives; non-trivial = at least one package in or out")
    ck.build()
    ck.model_check("IndexMC", "INIT Init\nNEXT Next\nINVARIANTS NeverFails RoundTrip Prefix\nCONSTANT Full = %s\n" % ("TRUE" if ck.thorough else "FALSE"), timeout=800)
    r, T = ck.rng, 10 if ck.thorough else 1
    cases, lines = [], []
    for i in range(1500 * T):
        cases.append({"kind": "rt", "pkgs": [rand_pkg(r, i % 3 == 0) for _ in range(r.choice([0, 1, 1, 2, 3, 6]) if i % 200 else 150)], "sig": r.choice(["", "", "s" * 256]), "desc": r.choice(["", "d", "two\nlines\n", "x" * 600])})
    for i in range(700 * T):
        cut = r.randrange(0, 1000)
        cases.append({"kind": "arc", "pkgs": [rand_pkg(r) for _ in range(r.randrange(1, 5))], "desc": "", "cut": cut, "flip": r.randrange(1000) if i % 2 else -1})
    for i in range(2500 * T):
        ls = []
        for _ in range(r.randrange(0, 4)):
            blk = []
            for _ in range(r.randrange(0, 7)):
                blk.append(r.choice(["P:a", "P:b", "P:", "V:1", "D:x y", "D:", "p:x  y", "i:u v", "S:12", "S:0012", "S:x", "S:-1", "S:18446744073709551616", "t:-7", "t:", "t:+", "k:3", "k:", "I:5",
                                     "C:Q1YWJj", "C:Q1!", "Z:x", "F:usr", "x", "P", ":", "::", "T:a:b", "no colon", "xP:", "A:", "é", "éx:", "r:a", "c:1 2", " ", "P :x", "p:@LONG@" if i % 10 == 0 else "p:q"]))
            if r.random() < .8: blk.insert(r.randrange(len(blk) + 1), "P:" + r.choice("abc"))
            ls += blk
            ls += [""] * r.choice([1, 1, 1, 2])
        if r.random() < .3:
            while ls and ls[-1] == "": ls.pop()
        long = 0
        if any("@LONG@" in x for x in ls): long = r.choice([70000, 500000, 1048570, 1200000])
        text = "\n".join(ls) + ("\n" if r.random() < .7 else "")
        cases.append({"kind": "parse", "text": text, "long": long})
    # well-formed texts with long lines, and with repeated fields
    for i in range(60 * T):
        pk = lambda: ["P:" + r.choice("abc"), "V:1", "C:Q1YWJj", r.choice(["p:@LONG@", "D:x @LONG@", "T:@LONG@", "D:so:@LONG@ b", "p:q"]), "S:5"]
        ls = []
        for _ in range(r.choice([1, 2, 3])): ls += pk() + [""]
        ls.insert(r.randrange(1, 4), "L:@LONG@" if i % 2 else "i:@LONG@")
        cases.append({"kind": "parse", "text": "\n".join(ls), "long": r.choice([60000, 65500, 65533, 65536, 100000, 131060, 131072, 140000, 262144, 500000, 1000000, 1048500])})
    for i in range(300 * T):
        ls = []
        for _ in range(r.choice([1, 2, 3])):
            blk = [r.choice(["P:a", "P:b", "V:1", "V:2", "A:x", "D:x y", "D:z", "D:", "p:u", "p:v w", "i:u", "i:", "S:12", "S:7", "S:0", "t:5", "t:7", "k:3", "k:4", "I:5", "I:6", "C:Q1YWJj", "C:Q1ZGVm", "C:Q1Z2hp", "L:x", "L:", "T:a", "T:b", "U:h", "o:o", "m:m", "c:1", "c:2"]) for _ in range(r.randrange(2, 12))]
            ls += blk + ["P:" + r.choice("abc"), ""]
        cases.append({"kind": "parse", "text": "\n".join(ls), "long": 0})
    res = ck.run_cases("index", cases)
    recs, src = [], []
    for c, x in zip(cases, res):
        if "ok" not in x:
            if "skipped" not in x: ck.violation("crash", x, c)
            continue
        k = c["kind"]
        if k == "rt": rec = {"kind": "rt", "pkgs": c["pkgs"], "desc": c["desc"], "ok": x["ok"], "got": x.get("got", []), "gotdesc": x.get("gotdesc", ""), "sig": c["sig"], "gotsig": x.get("gotsig", ""), "lines": x.get("text", "").split("\n")}
        elif k == "arc" and c["flip"] >= 0: ck.evals += 1; continue      # content damage is the signature's business (C08): only no panic, no hang
        elif k == "arc": rec = {"kind": "arc", "pkgs": [p for p in c["pkgs"] if p["name"]], "ok": x["ok"], "got": x.get("got", [])}
        else: 
            rec = {"kind": "parse", "lines": c["text"].split("\n"), "ok": x["ok"], "got": x["got"]}
            if c["long"] > 1048000 and not x["ok"]: continue      # a line beyond the reader's documented limit may be refused
        recs.append(rec); src.append(c)
        if c.get("pkgs") or x.get("got"): ck.distinct.add(json.dumps(rec))
    for k in ("rt", "parse", "arc"): ck.sample(next((x for x in recs if x["kind"] == k), None))
    ck.evals += len(recs); ck.traces = len(recs)
    for i, b in sorted(ck.judge("IndexJudge", recs).items()):
        for cl in b: ck.violation(cl, {"case": src[i], "got": recs[i]["got"]}, recs[i])
    ck.finish()
main(run)
