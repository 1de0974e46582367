"""Packages, installation histories and their judgement (spec InstallJudge), shared by C04, C05 and C07."""
import json


class Gen:
    def __init__(self, rng, mode):
        self.r, self.mode = rng, mode
        self.xattrs = rng.random() < .5

    def entry(self, p, k, c="", perm=0, tg=(), raw=""):
        e = dict(p=p.split("/"), k=k, c=c, perm=perm, tg=list(tg), x="")
        if self.xattrs and k in ("reg", "dir") and self.r.random() < .4: e["x"] = self.r.choice(["1", "cap", "v" * 300])
        if raw:
            e["raw"] = raw
        elif self.r.random() < .08:
            e["raw"] = "./" + p + ("/" if k == "dir" and self.r.random() < .8 else "")
        return e

    def perm(self, d=False):
        return self.r.choice([0o755, 0o755, 0o700, 0o711] if d else [0o644, 0o755, 0o600, 0o444])

    def content(self, tag):
        r = self.r
        return r.choice(["", tag, "%s-%d*%d" % (tag, r.randrange(9), r.choice([1, 7, 300])), "%s*%d" % (tag, r.choice([50, 400, 3000, 40000]))])

    def tree(self, tag, size=8, shared=(), links=True):
        """Entries of one package: own files under common directories."""
        r, es, dirs, files = self.r, [], [""], []
        have = set()
        def up(p):
            q = "/".join(p.split("/")[:-1])
            if q and q not in have and r.random() < .97:
                up(q)
                have.add(q)
                es.append(self.entry(q, "dir", perm=0o755))
        for n in range(r.randrange(size + 1)):
            d = r.choice(["usr", "usr/bin", "usr/lib", "etc", "lib", "opt/x", "var/lib/" + tag, tag])
            p = "%s/%s%d" % (d, tag, n)
            u = r.random()
            up(p)
            if u < .12:
                have.add(p)
                es.append(self.entry(p, "dir", perm=self.perm(True)))
                dirs.append(p)
            elif u < .22 and links:
                t = r.choice(["../%s%d" % (tag, r.randrange(5)), "/usr/lib/%s0" % tag, "nowhere", "."])
                es.append(self.entry(p, "link", c=t))
            elif u < .3 and links and files and self.mode != "lazy":
                es.append(self.entry(p, "hard", tg=r.choice(files).split("/")))
            else:
                es.append(self.entry(p, "reg", c=self.content(tag + str(n)), perm=self.perm()))
                files.append(p)
        for p, c in shared:
            up(p)
            if not any(e["p"] == p.split("/") for e in es):
                es.append(self.entry(p, "reg", c=c, perm=0o644))
        return es

    def scripts(self, big=False):
        r = self.r
        names = [".pre-install", ".post-install", ".pre-upgrade", ".post-upgrade", ".pre-deinstall", ".post-deinstall", ".trigger", ".other"]
        r.shuffle(names)
        return [dict(n=n, c=r.choice(["", "#!/bin/sh\n", "#!/bin/sh\necho %d\n" % r.randrange(99), "line\n*%d" % r.choice([10, 120, 5000 if big else 60]), "\0*%d" % r.choice([1, 512, 1024, 1500])]), t=r.choice([0, 1, 1600000000, 1234567890, 2**33 + 5 if big and 0 else 99])) for n in names[:r.choice([0, 0, 1, 1, 2, 3, 8])]]

    def triggers(self):
        r = self.r
        return [r.choice(["/usr/share/%d/*" % r.randrange(9), "/a /b/* /c", "+/opt:/x", "/x=y /z", "/etc"]) for _ in range(r.choice([0, 0, 0, 1, 1, 2]))]

    def pkg(self, name, es, **kw):
        r = self.r
        p = dict(name=name, ver=r.choice(["1.0-r0", "2_git2024-r3", "0", "1.2.3-r12"]), org=r.choice(["", "", name, "common"]), repl=[], es=es, sc=self.scripts(), tr=self.triggers(), extra=[],
                 signed=r.random() < .5, fmt=r.choice(["", "", "ustar", "pax", "gnu"]), cut=r.random() < .7, infopos=r.choice([0, 0, 0, 1, 5]), local=r.random() < .15,
                 nosum=self.mode != "lazy" and r.random() < .2)
        p.update(kw)
        return p


BAD = ["404", "garbage", "flip", "trunc", "nodata", "empty", "noinfo", "datahash", "othersum", "badsum"]


def spoil(r, p):
    p["bad"] = r.choice(BAD if p["local"] else BAD + ["500", "conn", "cut", "404"])
    if p["bad"] == "badsum" and (p["nosum"] or not any(e["k"] == "reg" for e in p["es"])):
        p["bad"] = "404"


def call(pk, order=None, sde=-1, cancel=-1, new=False, fault=0):
    return dict(fault=fault, pk=pk, order=order if order is not None else list(range(len(pk))), sde=sde, cancelAt=cancel, new=new)


def record(case, res):
    calls = []
    for c, sums in zip(case["calls"], res["sums"]):
        pk = [dict(name=p["name"], ver=p["ver"], sum=s, org=p["org"], repl=[x.split("=")[0] for x in p["repl"]], sc=p["sc"], tr=p["tr"],
                   es=[{k: e[k] for k in ("p", "k", "c", "perm", "tg", "x")} for e in p["es"]]) for p, s in zip(c["pk"], sums)]
        calls.append(dict(pk=pk, fail=[i + 1 for i, p in enumerate(c["pk"]) if p.get("bad")], cancel=c["cancelAt"] >= 0, new=c["new"], sde=c["sde"]))
    outs = [{k: o[k] for k in ("err", "hang", "fired", "root", "idb", "sc", "tr", "wh", "named")} for o in res["outs"]]
    return dict(mode=case["mode"], calls=calls, outs=outs)


def play(ck, batches, clauses=None, chunk=1500, timeout=40):
    for _, cases in batches:
        for c in cases:
            es = [e for cl in c["calls"] for p in cl["pk"] for e in p["es"]]
            if any(e["k"] == "hard" for e in es):       # links to one file share its attributes: not in the model
                for e in es: e["x"] = ""
    """batches: list of (env, cases). Runs and judges them; clauses: function clause -> bool, those this property decides."""
    recs, src = [], []
    for env, cases in batches:
        for user in (False, True):
            part = [c for c in cases if (c["mode"] == "dir") == user]
            if not part:
                continue
            for c, x in zip(part, ck.run_cases("install", part, case_timeout=timeout, as_user=user, env=env)):
                if "outs" not in x:
                    if "skipped" not in x:
                        ck.violation("hang" if x.get("hang") else "crash", x, c)
                    continue
                bad = [o for o in x["outs"] if o.get("bad")]
                if bad:
                    ck.violation("unreadable", bad[0]["bad"], c)
                    continue
                if any(o["hang"] for o in x["outs"]):
                    ck.violation("hang", {"outs": [(o["msg"], o["hang"]) for o in x["outs"]]}, c)
                    continue
                recs.append(record(c, x))
                src.append((c, x, env))
    ck.evals += len(recs)
    ck.traces += len(recs)
    for i, b in sorted(ck.judge("InstallJudge", recs, consts='CONSTANT IVariant = "ok"\n', chunk=chunk).items()):
        for cl in b:
            if clauses is None or clauses(cl):
                ck.violation(cl, {"outs": src[i][1]["outs"], "env": src[i][2]}, src[i][0])
    return recs, src
