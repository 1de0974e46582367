import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from urllib.parse import unquote

BASE = [("tmp", 0o1777), ("dev", 0o755), ("etc", 0o755), ("lib", 0o755), ("proc", 0o555), ("var", 0o755)]
DIRS = ["etc/apk", "etc/apk/keys", "lib/apk", "lib/apk/db", "var/cache", "var/cache/apk", "var/cache/misc"]
FILES = ["etc/apk/world", "etc/apk/repositories", "lib/apk/db/lock", "lib/apk/db/triggers", "lib/apk/db/installed", "etc/apk/arch", "lib/apk/db/scripts.tar"]
DEVS = [("dev/zero", 261), ("dev/urandom", 265), ("dev/null", 259), ("dev/random", 264), ("dev/console", 1281)]
ARCHES = ["x86_64", "aarch64", "armhf", "x"]

def run():
    ck = Check("C19", "model_checking",
      "cases = histories of initialisations, list settings and readings and keyring calls on roots where some paths already are something, with filesystem and network failures; non-trivial = not the first initialisation of an empty root without failures")
    ck.build()
    k = "INIT MInit\nNEXT MNext\nINVARIANTS Exact BadBase Others Repeats StepsAgree KeysAll\nCONSTANTS RVariant = \"%s\"\n RWide = %d\n"
    ck.model_check("RootMC", k % ("ok", 2 if ck.thorough else 1), timeout=800)
    for v, inv in [("notrunc", "Exact"), ("touchbase", "BadBase"), ("acceptfile", "Exact"), ("skiperr", "Exact")]:
        out, _, _ = ck.tlc("RootMC", k % (v, 0), expect_ok=False, name="RootMC(%s)" % v)
        if "Invariant %s is violated" % inv not in out: raise CheckError("the model does not see defect " + v)
    r, T = ck.rng, 10 if ck.thorough else 1
    cases, seq = [], [0]
    def prior():
        n = {}
        def up(p):
            d = os.path.dirname(p)
            if d and d not in n:
                up(d); n[d] = dict(p=d, k="dir", perm=dict(BASE).get(d, 0o755))
        def put(p, **kw):
            q = p
            while q:
                q = os.path.dirname(q)
                if q in n and n[q]["k"] != "dir" and not (q == "lib" and n[q]["k"] == "link"): return
            up(p)
            if p in n: return
            n[p] = dict(dict(p=p, k="dir", perm=0o755, c="", dev=0), **kw)
        u = r.random()
        if u < .15: return []
        if u < .3: put("usr/lib"); n["lib"] = dict(p="lib", k="link", c="usr/lib", perm=0)
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            x = r.random()
            if x < .25:
                p, m = r.choice(BASE)
                y = r.random()
                if y < .5: put(p, perm=m)
                elif y < .7: put(p, perm=r.choice([0o700, 0o777, 0o750, 0o711, m & 0o777, m | 0o1000]))
                else: put(p, k="file", perm=0o644, c="x")
            elif x < .5: put(r.choice(DIRS), **r.choice([dict(perm=0o755), dict(perm=0o755), dict(perm=0o700), dict(k="file", perm=0o644, c="x")]))
            elif x < .75: put(r.choice(FILES), **r.choice([dict(k="file", perm=r.choice([0o644, 0o600]), c=r.choice(["", "x", "old\ncontents\n" * 100, "z" * 3000])), dict(perm=0o755)]))
            elif x < .85:
                p, d = r.choice(DEVS); put(p, **r.choice([dict(k="dev", perm=0o600, dev=d), dict(k="dev", perm=0o666, dev=7), dict(k="file", perm=0o644, c="x")]))
            else: put(r.choice(["etc/passwd", "etc/apk/other", "etc/apk/keys/k1.rsa.pub", "usr/x", "lib/apk/db/more", "etc/apk/keys/a@1.rsa.pub"]), k="file", perm=r.choice([0o644, 0o600]), c="mine" * r.choice([1, 50]))
        return list(n.values())
    def word(): return r.choice(["a", "b", "abc", "ab", "a-b", "A", "zz", "so:x", "py3.1~2", "x>=1.0-r0", "\u00e9x", "a=1", "!b", "x" * 40, "b@edge", "0"])
    def repo(): return r.choice(["https://h.example/r", "https://h.example/r/", "@edge https://h.example/e", "http://u:p@h/x", "/local/repo", "https://h/a b", "# no", "https://h/" + "y" * 200, "@x  /two", "relative", "https://h.example/r?x=1", " https://h/leading", "https://h/trailing "] + (["https://h/" + "y" * r.choice([4080, 65520, 65540, 70000])] if r.random() < .2 else []))
    def key(i, local=False):
        seq[0] += 1
        nm = r.choice(["k%d.rsa.pub", "a@%d.rsa.pub", "key %d.pub", "%d", "K%d.pub.x"]) % i
        body = r.choice(["", "key", "-----BEGIN PUBLIC KEY-----\nAAA\n", "b" * 5000, "\n"]) + str(seq[0])
        how = "ok" if r.random() < .8 else r.choice(["404", "500", "cut", "refused", "300", "304"])
        if local: return dict(u="@D/" + nm, name=nm, body=body, how="ok" if how == "ok" else "missing")
        return dict(u="https://k%d.example/keys/%s" % (seq[0], nm.replace(" ", "%20")), name=nm.replace(" ", "%20"), body=body, how=how)
    def initdb(arch):
        c = dict(o="initdb", vs=[], rels=[], rel="", relhow="ok", keys=[])
        if r.random() < .4:
            keys, i = [], 0
            for b in r.sample(["v3.1", "v3.2", "edge", "v3.10"], r.choice([1, 2, 3])):
                ks = []
                for _ in range(r.choice([0, 1, 2, 3])):
                    i += 1; seq[0] += 1
                    nm = r.choice(["alpine%%40devel-%d.rsa.pub", "alpine%%20devel-%d.rsa.pub", "k%d.rsa.pub", "x%%2B%d.pub", "a+b-%d.pub"]) % i
                    u = "https://a%d.example/keys/%s" % (seq[0], nm)
                    ks.append(dict(arch=r.choice([arch, arch, "other"]), dep=r.choice(["none", "none", "null", "past", "past", "future"]), url=u, u=u.replace("%20", "@"), name=unquote(nm.replace("%20", "@")), body="body%d" % seq[0], how="ok" if r.random() < .9 else r.choice(["404", "cut", "refused", "204", "206", "300", "304"])))
                keys.append(dict(rel=b, keys=ks))
            if r.random() < .2 and keys: keys.append(dict(rel=keys[0]["rel"], keys=[]))
            c["rels"] = keys
            c["vs"] = [r.choice(["v3.1", "v3.2", "edge", "v3.10", "v9", "v3"]) for _ in range(r.choice([1, 1, 2, 3]))]
            c["keys"] = [x for b in keys for x in b["keys"]]
            def js(b):
                by = {}
                for x in b["keys"]:
                    e = dict(url=x["url"])
                    if x["dep"] != "none": e["deprecated_since"] = {"null": None, "past": r.choice(["2016-01-01", "2024-02-29"]), "future": "2199-12-31"}[x["dep"]]
                    by.setdefault(x["arch"], []).append(e)
                return dict(rel_branch=b["rel"], git_branch="g", arches=[arch], keys=by, repos=[dict(name="main", eol_date="2030-01-01")])
            c["rel"] = json.dumps(dict(architectures=[arch], latest_stable="v3.2", release_branches=[js(b) for b in keys]))
            if r.random() < .1: c["relhow"] = r.choice(["404", "cut", "refused", "204", "300", "304"])
        return c
    def call(arch):
        x = r.random()
        if x < .3: c = initdb(arch)
        elif x < .45: c = dict(o="setworld", l=[word() for _ in range(r.choice([0, 1, 2, 3, 5, 12]))])
        elif x < .58: c = dict(o="getworld")
        elif x < .7: c = dict(o="setrepos", l=[repo() for _ in range(r.choice([0, 1, 1, 2, 3, 6]))])
        elif x < .83: c = dict(o="getrepos")
        elif x < .97:
            n = r.choice([0, 1, 2, 3, 6])
            ks = [key(i, r.random() < .3) for i in range(n)]
            c = dict(o="keyring", keys=ks, extra=r.choice([0, n, n // 2]))
        else: c = dict(o="list")
        return c
    for i in range(3000 * T):
        arch = r.choice(ARCHES)
        calls = [initdb(arch)] if r.random() < .8 else []
        for _ in range(r.choice([1, 2, 3, 5, 8])): calls.append(call(arch))
        for c in calls:
            c["fault"] = 0
            if r.random() < .25: c["fault"] = r.choice(range(1, 50)) if c["o"] == "initdb" else r.choice(range(1, 8))
        pre = prior()
        c = dict(dir=r.random() < .4, arch=arch, ignore=r.random() < .8, cache=r.random() < .2, pre=pre, calls=calls)
        cases.append(c)
    # every operation of an initialisation fails once; then it is done again
    for dir in (False, True):
        for n in range(1, 60):
            for ign in (False, True):
                cases.append(dict(dir=dir, arch="x", ignore=ign, cache=False, pre=[], calls=[dict(o="initdb", fault=n, vs=[], keys=[], rel="", relhow="ok", rels=[]), dict(o="initdb", fault=0, vs=[], keys=[], rel="", relhow="ok", rels=[])]))
    res = ck.run_cases("root", cases, as_user=True)
    recs, src = [], []
    for c, x in zip(cases, res):
        if "views" not in x:
            if "skipped" not in x: ck.violation("crash", x, c)
            continue
        if x["bad"]: ck.violation("inconsistent root", x["bad"], c); continue
        merged = any(n["k"] == "link" for n in c["pre"])
        def canon(v):
            if not merged: return v
            o = []
            for n in v:
                if n["p"] == "lib": continue
                if n["p"] == "usr/lib" or n["p"].startswith("usr/lib/"): n = dict(n, p=n["p"][4:])
                o.append(n)
            return o
        calls = []
        for a, b in zip(c["calls"], x["calls"]):
            d = dict(o=a["o"], ok=b["ok"], fired=b["fired"], args=b["args"], l=a.get("l", []), lb=[list(s.encode()) for s in a.get("l", [])], lines=b["lines"], got=b["got"], long=any(len(q) > 65000 for q in a.get("l", [])), list=b["list"],
                     arch=c["arch"], archc=c["arch"] + "\n", ignore=c["ignore"], vs=a.get("vs", []), relok=a.get("relhow") == "ok",
                     rels=[dict(rel=q["rel"], keys=[dict(arch=y["arch"], dep=y["dep"], name=y["name"], body=y["body"], ok=y["how"] == "ok") for y in q["keys"]]) for q in a.get("rels", [])],
                     ks=[dict(name=y["name"], body=y["body"], ok=y["how"] == "ok") for y in a.get("keys", [])] if a["o"] == "keyring" else [])
            calls.append(d); ck.evals += 1
        recs.append(dict(views=[canon(v) for v in x["views"]], calls=calls)); src.append((c, x))
        if c["pre"] or len(calls) > 1: ck.distinct.add(json.dumps(c))
    ck.traces = len(recs)
    ck.sample(src[0]); ck.sample(src[-1])
    n = sum(1 for q in recs for c in q["calls"] if c["fired"])
    if n < 100: raise CheckError("hardly any failure struck")
    for i, b in sorted(ck.judge("RootJudge", recs, consts='CONSTANT RVariant = "ok"\n', chunk=6000).items()):
        for cl in b: ck.violation(cl, [(a["o"], a.get("fault"), y["err"], y["fired"]) for a, y in zip(src[i][0]["calls"], src[i][1]["calls"])], src[i])
    ck.assumptions += ["one caller at a time", "permissions of files that were there before stay unspecified", "names of keys are distinct, without queries or escaped slashes", "device nodes that already exist may make initialisation fail unless such errors are ignored"]
    ck.finish(failures_that_struck=n)
main(run)
