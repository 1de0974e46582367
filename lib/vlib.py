"""Shared runner of the checks: builds the Go harness from /repo's working tree (overlay, nothing is
written into /repo), runs TLC, runs harness cases, matches known findings, writes evidence.

Exit codes: 0 held; 1 violation observed in the real code (VIOLATION line); 2 error of the check."""
import atexit, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    pass


def go_env():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.23.12/bin:" + e.get("PATH", "")
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


class Check:
    def __init__(self, prop, level, technique_rule):
        self.prop, self.level, self.rule = prop, level, technique_rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=os.environ.get("VERIF_TMP", "/tmp"))
        atexit.register(lambda: shutil.rmtree(self.work, ignore_errors=True))
        self.viol = []            # (key, detail, replay)
        self.states = self.transitions = self.traces = self.evals = 0
        self.distinct = set()
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.log_lines = []
        self.known = load_known(prop)
        Check.last = self

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ build
    def build(self, race=False):
        ov = {}
        for f in sorted(os.listdir(HARNESS)):
            if f.endswith(".go"):
                ov[os.path.join(REPO, "internal/zz_verifharness", f)] = os.path.join(HARNESS, f)
        ovf = os.path.join(self.work, "overlay.json")
        with open(ovf, "w") as fh:
            json.dump({"Replace": ov}, fh)
        out = os.path.join(self.work, "vh")
        cmd = ["go", "build", "-overlay", ovf, "-o", out]
        if race:
            cmd.append("-race")
        cmd.append("./internal/zz_verifharness")
        r = subprocess.run(cmd, cwd=REPO, env=go_env(), capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise CheckError("harness does not build: " + r.stderr[-3000:])
        self.vh = out
        self.log("harness built")
        return out

    # ------------------------------------------------------------------ harness
    def user_dir(self):
        """A scratch folder of an unprivileged user."""
        d = os.path.join(self.work, "user")
        if not os.path.exists(d):
            os.chmod(self.work, 0o755)
            os.mkdir(d)
            if os.geteuid() == 0:
                os.chown(d, 65534, 65534)
        return d

    def leftovers(self):
        """Temporary files of the code under test that are still there."""
        return sorted(f for d in (self.work, os.path.join(self.work, "user")) if os.path.isdir(os.path.join(d, "tmp")) for f in os.listdir(os.path.join(d, "tmp")))

    def run_cases(self, cmd, cases, jobs=NCPU, case_timeout=20, total_timeout=600, env=None, as_user=False):
        """Run `vh cmd` over the cases (list of JSON objects). Returns a list of results, one per case;
        a case that kills or hangs the process gets {"crash":...} / {"hang":true}."""
        n = len(cases)
        res = [None] * n
        todo = list(range(n))
        rounds = 0
        deadline = time.time() + total_timeout
        single = False
        bad = 0
        while todo:
            rounds += 1
            batch = todo[:1] if single else todo
            inp = os.path.join(self.work, "in-%s-%d.ndjson" % (cmd, rounds))
            outp = os.path.join(self.user_dir() if as_user else self.work, "out-%s-%d.ndjson" % (cmd, rounds))
            with open(inp, "w") as fh:
                for k in batch:
                    fh.write(json.dumps({"k": k, "c": cases[k]}) + "\n")
            e = dict(os.environ)
            e.update(env or {})
            e["VERIF_SCRATCH"] = self.user_dir() if as_user else self.work
            e["TMPDIR"] = os.path.join(e["VERIF_SCRATCH"], "tmp")
            os.makedirs(e["TMPDIR"], exist_ok=True)
            os.chmod(e["TMPDIR"], 0o777)
            who = dict(user=65534, group=65534, extra_groups=[]) if as_user and os.geteuid() == 0 else {}
            if as_user:
                e["HOME"] = self.user_dir()
            left = max(5, deadline - time.time())
            try:
                r = subprocess.run([self.vh, "cases", cmd, inp, outp, str(1 if single else jobs), str(case_timeout)],
                                   env=e, capture_output=True, text=True, timeout=left, umask=0 if as_user else -1, cwd=e["VERIF_SCRATCH"], **who)
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired as x:
                raise CheckError("harness %s exceeded its total time budget" % cmd)
            got = set()
            if os.path.exists(outp):
                with open(outp) as fh:
                    for line in fh:
                        try:
                            o = json.loads(line)
                        except ValueError:
                            continue
                        res[o["k"]] = o["r"]
                        got.add(o["k"])
            os.unlink(inp)
            if os.path.exists(outp):
                os.unlink(outp)
            todo = [k for k in todo if k not in got]
            if rc == 0:
                if todo and not single:
                    raise CheckError("harness %s left %d cases without a result: %s" % (cmd, len(todo), err[-2000:]))
                if single and batch[0] in todo:
                    raise CheckError("harness %s gave no result" % cmd)
            elif rc == 3:       # a case hung (its result is recorded); carry on with the rest
                bad += 1
                if not got:
                    raise CheckError("harness hang without culprit: " + err[-2000:])
            else:
                if single:
                    res[batch[0]] = {"crash": first_crash_line(err)}
                    todo = todo[1:]
                    bad += 1
                else:
                    single = True
                    self.log("harness died (rc=%d), isolating: %s" % (rc, first_crash_line(err)))
            if bad >= 5:
                for k in todo:
                    res[k] = {"skipped": True}
                todo = []
        return res

    def vhrun(self, args, timeout=120, env=None, check=True, **kw):
        e = dict(os.environ)
        e["VERIF_SCRATCH"] = self.work
        e.update(env or {})
        r = subprocess.run([self.vh] + args, env=e, capture_output=True, text=True, timeout=timeout, **kw)
        if check and r.returncode != 0:
            raise CheckError("vh %s: rc=%d %s" % (args, r.returncode, r.stderr[-2000:]))
        return r

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=NCPU, timeout=600, extra=(), expect_ok=True, heap="6g", name=None):
        """Run TLC on spec/<module>.tla with the given cfg text. Returns (stdout, states_generated, distinct)."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        cfgf = os.path.join(d, module + ".cfg")
        with open(cfgf, "w") as fh:
            fh.write(cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cp = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-cp", cp, "tlc2.TLC",
               "-config", cfgf, "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-deadlock", "-noGenerateSpecTE"]
        cmd += list(extra) + [module + ".tla"]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC %s timed out after %ds" % (module, timeout))
        out = r.stdout
        gen = dist = 0
        for m in re.finditer(r"(\d+) states generated(?:, | \()(\d+) distinct", out):
            gen, dist = int(m.group(1)), int(m.group(2))
        if expect_ok and (r.returncode != 0 or "Error:" in out):
            raise CheckError("TLC %s failed (rc=%d):\n%s\n%s" % (module, r.returncode, out[max(0, out.find("Error:")):][:2500] + "\n...\n" + out[-1500:], r.stderr[-500:]))
        self.log("TLC %s: %d generated, %d distinct, %.1fs" % (name or module, gen, dist, time.time() - t))
        shutil.rmtree(d, ignore_errors=True)
        return out, gen, dist

    def model_check(self, module, cfg, **kw):
        out, gen, dist = self.tlc(module, cfg, **kw)
        self.states += dist
        self.transitions += gen
        self.extra.setdefault("models", []).append({"module": kw.get("name") or module, "distinct_states": dist, "states_generated": gen})
        return out

    def judge(self, module, recs, consts="", env=None, timeout=600, name=None, chunk=40000):
        """TLC as oracle: module judges each record. Returns dict index -> list of violated clauses."""
        bad = {}
        for base in range(0, len(recs), chunk):
            part = recs[base:base + chunk]
            f = os.path.join(self.work, "recs.ndjson")
            with open(f, "w") as fh:
                for r in part:
                    fh.write(json.dumps(r) + "\n")
            cfg = "INIT JInit\nNEXT JNext\nINVARIANT JInv\n" + consts
            ev = {"RECS": f}
            ev.update(env or {})
            out, gen, dist = self.tlc(module, cfg, env=ev, timeout=timeout, name=name)
            if dist != len(part):
                raise CheckError("judge %s visited %d of %d records" % (module, dist, len(part)))
            for v in verdicts(out):
                bad[base + v["i"] - 1] = v["bad"] if isinstance(v["bad"], list) else [v["bad"]]
        self.transitions += len(recs)
        return bad

    # ------------------------------------------------------------------ results
    def violation(self, key, detail, replay=None):
        self.viol.append((key, detail, replay))

    def sample(self, x, n=4):
        if x is not None and len(self.samples) < n:
            self.samples.append(x)

    def finish(self, **cov):
        known_hit, fresh = {}, []
        for key, detail, replay in self.viol:
            if key in self.known:
                known_hit.setdefault(key, detail)
            else:
                fresh.append((key, detail, replay))
        for key in self.known:
            if key in known_hit:
                print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, self.known[key], key))
            else:
                self.log("note: listed finding %s was not observed in this run" % key)
        c = {}
        if self.level == "model_checking":
            c.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
        c.update(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule)
        c["samples"] = self.samples or ["-"]
        c.update(self.extra)
        c.update(cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": c,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write("\n")
        if fresh:
            rp = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
            with open(rp, "w") as fh:
                json.dump([{"key": k, "detail": d, "replay": r} for k, d, r in fresh[:50]], fh, indent=1, default=str)
            seen = set()
            for k, d, r in fresh:
                if k in seen:
                    continue
                seen.add(k)
                if len(seen) <= 12:
                    print("  violated: %s: %s" % (k, str(d)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            sys.stdout.flush()
            sys.exit(1)
        self.log("held: %s" % json.dumps({k: v for k, v in c.items() if isinstance(v, int)}))
        sys.exit(0)


def first_crash_line(err):
    for l in err.splitlines():
        if l.startswith(("panic:", "fatal error:", "runtime:", "SIG", "signal:")) or "stack" in l[:40]:
            return l[:300]
    return (err.strip().splitlines() or ["killed"])[-1][:300]


def verdicts(out):
    for line in out.splitlines():
        if line.startswith('"VERDICT '):
            s = json.loads(line)
            yield json.loads(s[len("VERDICT "):])


def printed(out, tag):
    p = '"%s ' % tag
    for line in out.splitlines():
        if line.startswith(p):
            yield json.loads(json.loads(line)[len(tag) + 1:])


def load_known(prop):
    """finding: property=C02 key=<key> <text>  -> {key: text}"""
    f = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main(fn):
    try:
        fn()
        return
    except SystemExit:
        raise
    except CheckError as e:
        print("CHECK-ERROR:", e, flush=True)
    except Exception:
        traceback.print_exc()
    ck = getattr(Check, "last", None)
    if ck is not None and any(k not in ck.known for k, _, _ in ck.viol):
        ck.finish()          # violations seen in the real code before the check itself failed
    sys.exit(2)
