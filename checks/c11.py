import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

STYLES = ["plain"] * 4 + ["weak", "dots", "slash", "case", "long", "bare", "tmp", "abs"]
def families(r, kind, h):
    o = "https://%s.example" % h
    if kind == "index":
        return r.choice([[o + "/a", o + "/b"], [o + "/a", o + ":8443/a"], [o + "/a", o.replace("https", "http") + "/a"], [o + "/x/a", o + "/y/a"], [o + "/a", "https://x" + h + ".example/a"],
                         [o + "/a", o + "/A"], [o + "/a", o + "/a/x86_64"], [o + "/a%2Fb", o + "/a/b"], [o + "/a", "https://u:p@x" + h + ".example/a"], [o, o + "/a"]])
    k = "/r/a/key.rsa.pub"
    return r.choice([[o + k, o + "/r/b/key.rsa.pub"], [o + k, o + "/r/a/key2.rsa.pub"], [o + k, o + "/s/a/key.rsa.pub"], [o + k, o + ":8443" + k], [o + k, o.replace("https", "http") + k],
                     [o + k, o + k + "?v=2"], [o + k + "?v=1", o + k + "?v=2"], [o + k, o + "/R/a/key.rsa.pub"], [o + "/a/key.rsa.pub", o + "/key.rsa.pub"], [o + "/r%2Fa/b/k", o + "/r/a/b/k"],
                     [o + "/r/a%2Fk", o + "/r/a/k"], [o + k, o + "//r/a/key.rsa.pub"], [o + "/a/k.etag", o + "/a/k"], [o + "/a/k/APKINDEX", o + "/a/k"], [o + "/a/b/APKINDEX.tar.gz", o + "/a/b/k"],
                     [o + "/a/b.etags/c", o + "/a/b"], [o + "/r/%2e%2e/a/k", o + "/a/k"], [o + k, "https://y" + h + ".example" + k], [o + "/a//k", o + "/a/k"]])

def segments(hist):
    segs = [dict(off=False, steps=[])]
    for s in hist:
        if s["a"] == "restart": segs.append(dict(off=s["o"] == "off", steps=[]))
        else: segs[-1]["steps"].append(s)
    return segs

def st(a, **k): return dict(dict(a=a, c=0, u=0, o="", v=0, t=False), **k)
def rnd(r, nu):
    hist, off = [], False
    for _ in range(r.randrange(1, 5)):
        open_ = []
        for _ in range(r.randrange(1, 12)):
            x = r.random()
            if x < .4 and (len(open_) < 3 or off): c = r.randrange(1, 5); u = r.randrange(1, nu + 1); open_ += [u]; hist.append(st("start", c=c, u=u))
            elif x < .75 and open_ and not off: hist.append(st("serve", u=r.choice(open_), o=r.choice(["ok"] * 9 + ["cut", "conn", "500", "404", "half"])))
            elif x < .8: hist.append(st("cancel", c=r.randrange(1, 5)))
            elif x < .97: hist.append(st("change", u=r.randrange(1, nu + 1), v=r.randrange(1, 4), t=r.random() < .85))
            elif r.random() < .5: hist.append(st("clean"))
        if r.random() < .7 and not off: hist += [st("serve", u=u, o="ok") for u in open_ for _ in "12"]
        off = r.random() < .4
        hist.append(st("restart", o="off" if off else ""))
    return hist[:-1]

def run():
    ck = Check("C11", "model_checking",
      "cases = histories of requests for indexes and keys through the cache, in up to four processes sharing a cache directory: origins changing, tagging or not, failing, answering in any order, requests in parallel and cancelled, the directory emptied, offline processes; non-trivial = a history with a change of a resource, a failure, or two requests at once")
    ck.build()
    base = "INIT Init\nNEXT Next\nVIEW hview\nCONSTANTS HUrls = {%s}\n HVers = {1,2}\n HClients = {%s}\n HLen = %d\n HProcs = %d\n HVariant = \"%s\"\n"
    d = 1 if ck.thorough else 0
    ck.model_check("HttpCache", base % ("1,2", "1,2", 6 + d, 2, "ok") + "INVARIANTS Own Fresh Spurious Once Last\n", timeout=800)
    ck.model_check("HttpCache", base % ("1", "1,2", 10 + d, 3, "ok") + "INVARIANTS Own Fresh Spurious Once Last\n", timeout=800, name="HttpCache(1 url)")
    for v, inv, us, cs, l, p in (("rememberFail", "Spurious", "1", "1,2", 6, 2), ("cancelAll", "Spurious", "1", "1,2", 6, 2), ("sharedFile", "Own", "1,2", "1,2", 6, 2), ("headTag", "Fresh", "1", "1", 9, 2), ("partial", "Own", "1", "1", 7, 2),
                                 ("noCheck", "Fresh", "1", "1", 8, 2), ("vanish", "Spurious", "1", "1", 6, 2), ("anyOffline", "Last", "1", "1", 10, 3), ("twice", "Once", "1", "1,2", 6, 2)):
        out, _, _ = ck.tlc("HttpCache", base % (us, cs, l, p, v) + "INVARIANT %s\n" % inv, expect_ok=False, name="HttpCache(%s)" % v)
        if "Invariant %s is violated" % inv not in out: raise CheckError("the model does not see defect " + v)
    r, T = ck.rng, 6 if ck.thorough else 1
    hists = []
    for l, n in ((8, 40), (12, 40), (16, 40)):
        out, _, _ = ck.tlc("HttpCache", base % ("1,2", "1,2,3", l, 4, "ok") + "INVARIANT Generate\n", workers=1, extra=["-simulate", "num=%d" % (n * T), "-depth", "60", "-seed", str(ck.seed * 7 + l)], name="HttpCache simulation")
        seen, l0 = set(), len(hists)
        for x in printed(out, "GEN"):
            k = json.dumps(x["hist"])
            if k not in seen: seen.add(k); hists.append(x["hist"])
        hists[l0:] = r.sample(hists[l0:], min(len(hists) - l0, 700 * T))
    ngen = len(hists)
    hists += [rnd(r, 2) for _ in range(2500 * T)]
    ud = ck.user_dir()
    cases = []
    for i, h in enumerate(hists):
        kind = r.choice(["key", "key", "index"])
        cases.append(dict(id="h%d" % i, kind=kind, urls=families(r, kind, "h%d" % i), style=r.choice(STYLES), size=r.choice([10, 10, 400, 40000]), dir=os.path.join(ud, "cache", "d%d" % i),
                          org=[dict(v=1, tag=r.random() < .85) for _ in "12"], segs=segments(h), ev=[], bad=None))
    def busy(c): return any(s["a"] in ("change", "cancel") or s["o"] not in ("", "ok") for g in c["segs"] for s in g["steps"])
    for k in range(max(len(c["segs"]) for c in cases)):
        todo = [c for c in cases if len(c["segs"]) > k and not c["bad"]]
        if not todo: break
        res = ck.run_cases("httpcache", [dict({x: c[x] for x in ("id", "kind", "urls", "style", "size", "dir", "org")}, off=c["segs"][k]["off"], steps=c["segs"][k]["steps"],
                                               drain=k + 1 == len(c["segs"]) or r.random() < .3) for c in todo], jobs=80, case_timeout=60, as_user=True)
        for c, x in zip(todo, res):
            if "ev" not in x or x["hang"] or any(e["bu"] == -1 for e in x["ev"]):
                c["bad"] = True
                if "skipped" not in x: ck.violation("hang" if x.get("hang") else "crash", x, {y: c[y] for y in ("kind", "urls", "style", "segs")})
                continue
            c["ev"].append(dict(off=c["segs"][k]["off"], ev=x["ev"])); c["org"] = x["org"]
    recs = [dict(kind=c["kind"], segs=[dict(off=s["off"], ev=[{k: e[k] for k in e if k != "err"} for e in s["ev"]]) for s in c["ev"]]) for c in cases if not c["bad"]]
    src = [c for c in cases if not c["bad"]]
    for c in src:
        if busy(c) or len(c["segs"]) > 1: ck.distinct.add(json.dumps([c["segs"], c["urls"], c["style"]]))
    ck.sample(recs[0]); ck.sample(recs[-1])
    ck.evals = ck.traces = len(recs)
    for i, b in sorted(ck.judge("HttpCacheJudge", recs).items()):
        for cl in b: ck.violation(cl, recs[i], {y: src[i][y] for y in ("kind", "urls", "style", "size", "ev", "segs")})
    ends = [e for c in src for s in c["ev"] for e in s["ev"] if e["e"] == "end"]
    ck.assumptions += ["an origin never serves two different bodies of one URL under one entity tag; an index or key may stay pinned for the life of a process"]
    ck.finish(generated_histories=ngen, requests=len(ends), succeeded=sum(e["ok"] for e in ends), processes=sum(len(c["segs"]) for c in src))
main(run)
