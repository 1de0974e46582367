"""Random histories of filesystem operations."""
TG = [("a", False), ("b", False), ("../b", False), ("/a", True), ("/b/a", True), ("d/a", False), ("..", False), (".", False), ("/", True), ("c", False), ("../../../a", False), ("missing/x", False), ("/d", True), ("d", False), ("./a", False), ("d//a", False), ("d/../a", False), ("d/", False), ("/d/../b", True), ("d/.", False)]
def target(s, ab): return dict(s=s, abs=ab, p=s.split("/"))
def fl(s): return dict(r="r" in s, w="w" in s, creat="c" in s, excl="x" in s, trunc="t" in s, app="a" in s)
FLAGS = ["r", "rw", "w", "rwc", "wc", "wct", "rwct", "rwcx", "wca", "rwca", "wa", "rc", "wcxa", "rwa", "wt", "rwcta"]

class Gen:
    def __init__(self, r, names=("a", "b", "c", "d"), perms=(0o644, 0o600, 0o755, 0o4755, 0o2644, 0o1777), dperms=(0o755, 0o700, 0o1777), disk=False, dev=True, targets=TG, fold=False):
        self.r, self.names, self.perms, self.dperms, self.disk, self.dev, self.targets = r, names, perms, dperms, disk, dev, targets
        self.opens = 0
        self.fold = fold
    def path(self, deep=.45, odd=True):
        r = self.r
        p = [r.choice(self.names)]
        while r.random() < deep and len(p) < 5: p.append(r.choice(self.names))
        if odd and r.random() < .15: p.insert(r.randrange(0, len(p)), r.choice(["", ".", "..", ".."]))
        if r.random() < .05: p += [""] * r.choice([1, 2, 3])
        return p
    def data(self, lo=0): return [self.r.randrange(1, 255) for _ in range(self.r.choice([lo, 1, 2, 3, 5, 9]))]
    def op(self):
        r, R = self.r, self.r.random
        k = r.choices(["mkdir", "mkdirall", "write", "open", "h", "stat", "lstat", "readfile", "readdir", "readlink", "readnod", "symlink", "mknod", "link", "remove", "chmod", "chown", "setx", "rmx", "getx", "listx"],
                      [9, 3, 10, 8, 22 if self.opens else 0, 3, 3, 2, 2, 2, 1, 9, 2 if self.dev else 0, 7, 8, 4, 3, 4, 1, 2, 1])[0]
        p = self.path()
        o = dict(o=k, p=p, abs=R() < .3)
        if k == "mkdir": o["perm"] = r.choice(self.dperms); 
        elif k == "mkdirall": o["p"], o["perm"] = self.path(.7, False), r.choice(self.dperms)
        elif k == "write": o["b"], o["perm"] = self.data(), r.choice(self.perms)
        elif k == "open":
            if R() < .15: o["via"], o["fl"], o["perm"] = "create", fl("rwct"), 0o666
            elif R() < .15: o["via"], o["fl"], o["perm"] = r.choice(["open", "readerat"]), fl("r"), 0o644
            else: o["fl"], o["perm"] = fl(r.choice(FLAGS)), r.choice(self.perms)
            self.opens += 1
        elif k == "h":
            o = dict(o=r.choices(["read", "readat", "hwrite", "seek", "hstat", "close"], [6, 3, 8, 6, 2, 1])[0], i=r.randrange(1, min(self.opens, 6) + 1))
            if o["o"] == "read": o["k"] = r.choice([1, 2, 3, 5, 20])
            if o["o"] == "readat": o["k"], o["off"] = r.choice([1, 2, 3, 20]), r.choice([0, 1, 2, 4, 9, -1])
            if o["o"] == "hwrite": o["b"] = self.data(1) or [1]
            if o["o"] == "seek": o["off"], o["wh"] = r.choice([0, 0, 1, 2, -1, -2, 5, 8]), r.choice([0, 1, 2])
        elif k == "symlink": o["tg"] = target(*r.choice(self.targets)); o["p"] = self.path(.4, False)
        elif k == "mknod": o["perm"], o["dev"] = r.choice([0o600, 0o644]), r.choice([259, 1281, 263])
        elif k == "link": o["old"], o["p"] = self.path(), self.path(.4, False)
        elif k == "remove": o["p"] = self.path(.45, False)
        elif k == "chmod": o["perm"] = r.choice(self.perms if self.disk else list(self.perms) + [0o400, 0o4000, 0])
        elif k == "chown": o["uid"], o["gid"] = r.choice([0, 1, 1000]), r.choice([0, 2, 1000])
        elif k in ("setx", "getx", "rmx"):
            o["a"] = r.choice(["user.a", "user.b"])
            if k == "setx": o["b"] = self.data()
        if self.disk and k in ("chmod",) : o["perm"] = o["perm"] | 0o700
        return o
    def history(self, n):
        self.opens = 0
        # often a tree to start with
        ops = []
        if self.r.random() < .8:
            ops.append(dict(o="mkdir", p=["d"], abs=False, perm=0o755))
            if self.r.random() < .5: ops.append(dict(o="mkdirall", p=["b", "d"], abs=False, perm=0o755))
            ops.append(dict(o="write", p=["d", "a"], abs=False, b=[1, 2, 3], perm=0o644))
        return ops + [self.op() for _ in range(n)]
def full(op):
    d = dict(p=[], abs=False, old=[], tg=dict(s="", abs=False, p=[]), perm=0, uid=0, gid=0, dev=0, b=[], a="", i=0, k=0, off=0, wh=0, fl=fl(""), via="")
    d.update(op)
    return d
