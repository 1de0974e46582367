import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import fsgen, c13

def run():
    ck = Check("C14", "model_checking",
      "cases = one history of filesystem operations replayed, as an unprivileged user, on DirFS over a scratch folder, with the visible tree and the disk after each step, reopened at random points; non-trivial = at least one link, open handle or failed operation in it")
    ck.build()
    c13.model(ck, 3)
    r, T = ck.rng, ck.thorough
    gen = c13.generated(ck)
    hs = gen if T else r.sample(gen, 2500)
    ngen = len(hs)
    perms, dperms = (0o644, 0o600, 0o755, 0o640), (0o755, 0o700, 0o1777)
    g = fsgen.Gen(r, perms=perms, dperms=dperms, disk=True)
    g2 = fsgen.Gen(r, perms=perms, dperms=dperms, disk=True, dev=False)
    g3 = fsgen.Gen(r, names=("a", "A", "b", "B", "d"), perms=perms, dperms=dperms, disk=True)
    def fit(h):   # the owner can use what it made, no bits the kernel clears on writing
        for o in h:
            if o["o"] == "chmod": o = o.update(perm=o["perm"] & 0o1777 | 0o700)
        return h
    hs = [fit([dict(o) for o in h]) for h in hs]
    for i in range(12000 if T else 1500): hs.append(g.history(r.choice([5, 12, 25])))
    for i in range(12000 if T else 1200):     # reopened at random points
        h = []
        for k in range(r.choice([1, 2, 3])): h += g2.history(r.choice([4, 10])) + [dict(o="reopen")]
        hs.append(h + g2.history(4))
    # files without read permission: readable through Open while it is open, as they were afterwards
    for perm in (0, 0o200, 0o100, 0o077):
        for p in (["a"], ["d", "a"], ["l"], ["d", "l"]):
            for via in ("open", "readerat"):
                hs.append([dict(o="mkdir", p=["d"], perm=0o755), dict(o="write", p=["a"], b=[1, 2], perm=perm), dict(o="write", p=["d", "a"], b=[3], perm=perm),
                           dict(o="symlink", p=["l"], tg=fsgen.target("d/a", False)), dict(o="symlink", p=["d", "l"], tg=fsgen.target("../a", False)),
                           dict(o="open", p=p, via=via, fl=fsgen.fl("r")), dict(o="read", i=1, k=5), dict(o="close", i=1), dict(o="stat", p=p), dict(o="chmod", p=p, perm=0o644), dict(o="readfile", p=p)])
    # further permission bits, on disk and after reopening
    for perm in (0o4755, 0o2755, 0o1755, 0o6711, 0o7777):
        for n in (["a"], ["d"], ["d", "a"], ["l"]):
            h = [dict(o="mkdir", p=["d"], perm=0o755), dict(o="write", p=["a"], b=[1, 2], perm=0o644), dict(o="write", p=["d", "a"], b=[3], perm=0o644), dict(o="symlink", p=["l"], tg=fsgen.target("d/a", False)),
                 dict(o="chmod", p=n, perm=perm), dict(o="stat", p=n)]
            hs += [h + [dict(o="reopen"), dict(o="stat", p=n), dict(o="chmod", p=n, perm=0o700), dict(o="stat", p=n)], h + [dict(o="chmod", p=n, perm=0o755), dict(o="stat", p=n)]]
    cases = [dict(disk=True, fold=False, ops=[fsgen.full(o) for o in h]) for h in hs]
    for i in range(6000 if T else 1200):      # a disk that does not tell upper case from lower case
        cases.append(dict(disk=True, fold=True, ops=[fsgen.full(o) for o in g3.history(r.choice([5, 12, 25])) if o["o"] != "link"]))
    for i in range(3000 if T else 300):       # the same, reopened (while all names are on disk)
        h = [o for o in g2.history(r.choice([4, 10])) if o["o"] != "link"] + [dict(o="reopen")] + [o for o in g3.history(r.choice([4, 10])) if o["o"] != "link"]
        cases.append(dict(disk=True, fold=True, ops=[fsgen.full(o) for o in h]))
    # there, a name taken, given up and taken again under another case, then reopened
    mk = {"file": lambda p, n: [dict(o="write", p=p, b=[n], perm=0o644)], "dir": lambda p, n: [dict(o="mkdir", p=p, perm=0o755)],
          "link": lambda p, n: [dict(o="symlink", p=p, tg=fsgen.target("t", False))]}
    look = [["a"], ["A"], ["d", "a"], ["d", "A"], ["D", "a"], ["D"]]
    for k1 in mk:
        for k2 in mk:
            for p1, p2 in ((["a"], ["A"]), (["d", "a"], ["d", "A"])):
                for mid in ([], [dict(o="reopen")]):
                    for both in (False, True):
                        h = [dict(o="mkdir", p=["d"], perm=0o755), dict(o="write", p=["t"], b=[9], perm=0o644)] + mk[k1](p1, 1)
                        if both: h += mk[k2](p2, 2)
                        h += mid + [dict(o="remove", p=p1)]
                        if not both: h += mk[k2](p2, 2)
                        if both or not mid: h += mk[k1](p1, 3) if r.random() < .5 else []
                        if both and mid: continue        # the second name was never on disk
                        if not both and mk[k2] and not any(o["p"] == p1 for o in h[h.index(dict(o="remove", p=p1)) + 1:]): h += [dict(o="reopen")]
                        h += [dict(o=o, p=q) for q in look for o in ("lstat", "readfile")] + [dict(o="readdir", p=["d"])]
                        cases.append(dict(disk=True, fold=True, ops=[fsgen.full(o) for o in h]))
    c13.judge_histories(ck, cases, True, as_user=True)
    # there, a hard link from a name on disk to one that cannot be on disk
    link = [dict(o="write", p=["a"], b=[1], perm=0o644), dict(o="link", old=["a"], p=["A"]), dict(o="readfile", p=["A"])]
    c13.judge_histories(ck, [dict(disk=True, fold=True, ops=[fsgen.full(o) for o in link])], True, prefix="fold-hard-link", as_user=True)
    ck.assumptions += ["the check runs as an unprivileged user: device nodes are held in memory over an empty file; ownership and attributes are not expected after reopening", "the case-insensitive mode is exercised over a case-sensitive disk (the mode decides what is put on disk)"]
    ck.finish(generated_histories=ngen)
if __name__ == "__main__": main(run)
