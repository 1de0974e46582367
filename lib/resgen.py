"""Seeded random package universes for the resolver checks."""
VERS = ["1", "1.1", "1.2-r0", "1.2-r1", "2", "2_rc1", "2.0.1", "3", "10"]
OPS = ["=", "<", ">", "<=", ">=", "~"]


def C(n, op="", v="", neg=False, pin=""):
    return {"neg": neg, "n": n, "op": op, "v": v, "pin": pin}


def cs(c):
    return ("!" if c["neg"] else "") + c["n"] + c["op"] + c["v"] + ("@" + c["pin"] if c["pin"] else "")


def ps(p):
    return p["n"] + ("=" + p["v"] if p["v"] else "")


def pkg(i, name, ver, prov=(), deps=(), org="", prio=0, tag="", iif=()):
    return {"id": i, "name": name, "ver": ver, "prov": list(prov), "deps": list(deps), "org": org, "prio": prio, "tag": tag, "iif": list(iif)}


def random_universe(r, acyclic=False, tags=True, iif=True, size=None, excl=0.06):
    names = list("abcdefgh")[:r.randrange(2, 9)]
    virt = ["v", "w"]
    n = size or r.randrange(2, 13)
    pk = []
    for i in range(1, n + 1):
        nm = r.choice(names)
        prov = []
        while r.random() < .25 and len(prov) < 2:
            prov.append({"n": r.choice(virt if r.random() < .75 else names), "v": r.choice(["", "", "1", "2", "3"])})
        tag = r.choice(["", "", "", "edge"]) if tags else ""
        pk.append(pkg(i, nm, r.choice(VERS), [p for p in prov if p["n"] != nm], [], r.choice(["", nm, "o1", "o2"]), r.choice([0, 0, 0, 1, 10]), tag))
    avail = sorted({p["name"] for p in pk} | {q["n"] for p in pk for q in p["prov"]})

    def con(pool):
        t = r.choice(pool)
        if r.random() < .6:
            return C(t, neg=r.random() < excl)
        have = [p["ver"] for p in pk if p["name"] == t] + [q["v"] for p in pk for q in p["prov"] if q["n"] == t and q["v"]]
        return C(t, r.choice(OPS), r.choice(have) if have and r.random() < .8 else r.choice(VERS), neg=r.random() < excl)
    lvl = {x: i for i, x in enumerate(names)}
    for p in pk:
        pool = avail if r.random() < .97 else avail + ["nosuch"]
        if acyclic:
            pool = [x for x in pool if x in lvl and lvl[x] > lvl[p["name"]]]
            if p["prov"] and any(q["n"] in lvl for q in p["prov"]):
                p["prov"] = [q for q in p["prov"] if q["n"] not in lvl]
        while pool and r.random() < .5 and len(p["deps"]) < 4:
            c = con(pool)
            p["deps"].append(c)
        if iif and r.random() < .1:
            trg = r.sample(avail, min(len(avail), r.randrange(1, 3)))
            p["iif"] = [C(t) if r.random() < .6 else C(t, "=", r.choice([x["ver"] for x in pk if x["name"] == t] or ["1"])) for t in trg]
    world = []
    for _ in range(r.randrange(1, 5)):
        c = con(avail)
        if not c["neg"] and tags and r.random() < .25:
            c["pin"] = "edge"
        world.append(c)
    return pk, world


def unique_universe(r):
    """Every needed name has exactly one provider: resolution must succeed."""
    n = r.randrange(1, 9)
    names = ["n%d" % i for i in range(n)]
    pk = []
    for i, nm in enumerate(names):
        prov = [{"n": "v%d" % i, "v": r.choice(["", "1", "2"])}] if r.random() < .4 else []
        pk.append(pkg(i + 1, nm, r.choice(VERS), prov, [], nm))
    tgt = [(p["name"], p["ver"]) for p in pk] + [(q["n"], q["v"]) for p in pk for q in p["prov"]]

    def con():
        t, v = r.choice(tgt)
        return C(t, r.choice(["=", ">=", "<=", "~"]), v) if v and r.random() < .4 else C(t)
    for p in pk:
        while r.random() < .55 and len(p["deps"]) < 4:
            p["deps"].append(con())
    return pk, [con() for _ in range(r.randrange(1, 5))]


def iif_universe(r):
    """Unique names, no exclusions, requests by name; some packages carry install_if conditions (over dependencies)."""
    n = r.randrange(2, 7)
    pk = []
    for i in range(n):
        prov = [{"n": "v%d" % i, "v": r.choice(["", "1", "2"])}] if r.random() < .4 else []
        pk.append(pkg(i + 1, "n%d" % i, r.choice(VERS), prov))
    tgt = [(p["name"], p["ver"]) for p in pk] + [(q["n"], q["v"]) for p in pk for q in p["prov"]]
    for i, p in enumerate(pk):
        while r.random() < .55 and len(p["deps"]) < 3:
            p["deps"].append(C(r.choice(tgt)[0]))
    for i in range(r.randrange(1, 5)):
        def cond():
            t, v = r.choice(tgt)
            k = r.random()
            if k < .4: return C(t)
            return C(t, "=" if k < .7 else r.choice(OPS), v if v and r.random() < .7 else r.choice(VERS))
        iif = [cond() for _ in range(r.choice([1, 1, 2, 2, 3]))]
        prov = [{"n": "w%d" % i, "v": r.choice(["", "1", "2"])}] if r.random() < .3 else []
        pk.append(pkg(len(pk) + 1, "i%d" % i, r.choice(VERS), prov, [C(r.choice(tgt)[0]) for _ in range(r.choice([0, 0, 1, 2]))], tag=r.choice(["", "", "", "edge"]), iif=iif))
        if r.random() < .5: tgt.append(("i%d" % i, pk[-1]["ver"])); tgt += [(q["n"], q["v"]) for q in prov]
    # a package of a tagged repository is wanted by nothing else
    for p in pk:
        p["deps"] = [c for c in p["deps"] if not any(q["tag"] and c["n"] in [q["name"]] + [x["n"] for x in q["prov"]] for q in pk)]
    world = [C("n%d" % i, pin=r.choice(["", "", "edge"])) for i in r.sample(range(n), min(n, r.choice([1, 1, 2])))]
    return pk, world


def indexes(pk, r=None, split=True):
    """Distribute the packages over repositories (one per tag, untagged ones over two)."""
    ix = {}
    for p in pk:
        k = (p["tag"], r.randrange(2) if r and split else 0)
        ix.setdefault(k, []).append({"id": p["id"], "name": p["name"], "ver": p["ver"], "prov": [ps(x) for x in p["prov"]],
                                     "deps": [cs(x) for x in p["deps"]], "org": p["org"], "prio": p["prio"], "iif": [cs(x) for x in p["iif"]]})
    return [{"tag": k[0], "pkgs": v} for k, v in sorted(ix.items())]
