"""Driver library: builds the harness from /repo's working tree, runs TLC for model checking, scenario
generation and trace validation, runs the harness, reports."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.86-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
           PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + os.environ.get("PATH", ""))
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
CORES = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=None, check=True, stdin=None):
    try:
        p = subprocess.run(cmd, env=env or ENV, cwd=cwd, timeout=timeout, stdin=subprocess.DEVNULL if stdin is None else stdin,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("timeout: %s" % " ".join(map(str, cmd))[:300])
    if check and p.returncode != 0:
        raise ToolError("failed (%d): %s\n%s" % (p.returncode, " ".join(map(str, cmd))[:300], p.stdout[-6000:]))
    return p


def cargo(pkg_args, manifest=None, target=None):
    t = target or os.path.join(BUILD, "target")
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--manifest-path",
           manifest or os.path.join(VERIF, "harness/Cargo.toml"), "--target-dir", t] + pkg_args
    sh(cmd, 840)
    return os.path.join(t, "debug")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.runs = self.events = 0
        self.mc_log = []
        self.samples = []
        self.violations = []
        self.known_seen = {}
        self.extra = {}
        self.kinds = {}
        self.assumptions = []
        self.known_keys = load_known(pid)

    quick = property(lambda s: s.tier == "quick")

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self):
        return (780 if self.quick else 5400) - (time.time() - self.t0)

    # --- TLC ---
    def tlc(self, module, cfg, env=None, args=(), mem="3g", workers=None, timeout=700, check=True):
        md = tempfile.mkdtemp(prefix="md-%s-" % module, dir=self.dir)
        cmd = ["java", "-XX:+UseSerialGC" if not workers else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m", "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + md, "-cp", JARS,
               "tlc2.TLC", "-metadir", md, "-config", os.path.join(SPEC, cfg), "-workers", str(workers or 1)] + list(args) + \
              [os.path.join(SPEC, module + ".tla")]
        e = dict(ENV, DATA=os.path.join(SPEC, "data"), **(env or {}))
        p = sh(cmd, timeout, env=e, cwd=md, check=False)
        shutil.rmtree(md, ignore_errors=True)
        if check and p.returncode != 0:
            raise ToolError("TLC %s %s ended with %d:\n%s" % (module, cfg, p.returncode, p.stdout[-5000:]))
        return p

    def model_check(self, module, cfg, env=None, timeout=600, workers=CORES, mem="8g", args=()):
        """Exhaustive check of a design specification."""
        t = time.time()
        p = self.tlc(module, cfg, env=env, workers=workers, mem=mem, timeout=timeout, args=args)
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", p.stdout)
        if not m or "Error:" in p.stdout:
            raise ToolError("TLC %s: no result\n%s" % (module, p.stdout[-4000:]))
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
        self.states += dist
        self.transitions += gen
        self.mc_log.append({"module": module, "config": cfg, "distinct_states": dist, "generated": gen, "wall_s": round(time.time() - t, 1)})

    def refute(self, module, cfg, env=None):
        """A deliberately wrong variant of the design has to violate its properties (the model can see the defect)."""
        t = time.time()
        p = self.tlc(module, cfg, env=env, workers=CORES, check=False, args=["-noTE"])
        bad = re.findall(r"Error: (Invariant \S+ is violated|Deadlock reached|Action property \S+ is violated|Temporal properties were violated|Evaluating assumption)", p.stdout)
        if not bad:
            raise ToolError("TLC %s %s: the wrong variant was not refuted\n%s" % (module, cfg, p.stdout[-2000:]))
        self.mc_log.append({"module": module, "config": cfg, "refuted": bad[0], "wall_s": round(time.time() - t, 1)})

    def generate(self, module, num, name, env=None, seed=None, parts=1, depth=400, cfg="Gen.cfg", timeout=300):
        """Behaviours of a specification (tlc -simulate), one JSON list of operations per line."""
        out = os.path.join(self.dir, "scen-%s.ndjson" % name)

        def part(k):
            f = "%s.%d" % (out, k)
            e = dict(env or {}, OUT=f)
            self.tlc(module, cfg, env=e, args=["-simulate", "num=%d" % -(-num // parts), "-depth", str(depth), "-seed",
                                               str((seed if seed is not None else self.seed) * 1000 + k)], timeout=timeout)
            return f
        with cf.ThreadPoolExecutor(CORES) as ex:
            fs = list(ex.map(part, range(parts)))
        seen, lines = set(), []
        for f in fs:
            for line in open(f):
                if line.strip() and line not in seen:
                    seen.add(line)
                    lines.append(line)
            os.unlink(f)
        with open(out, "w") as g:
            g.writelines(lines)
        return out

    # --- harness ---
    def harness(self, binary, mode, scen, name, args=(), timeout=600, env=None, limit=None, crash_is_violation=True, procs=0):
        """Runs the harness; returns the trace files. An abort or hang of the code under test is a violation."""
        out = os.path.join(self.dir, "tr-" + name)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        cmd = [binary, mode, "--scen", scen, "--out", out] + (["--limit", str(limit)] if limit else []) + list(map(str, args))
        tmp = os.path.join(self.dir, "tmp-" + name)
        os.makedirs(tmp, exist_ok=True)
        def run1(extra):
            try:
                p = sh(cmd + extra, timeout, env=dict(ENV, TMPDIR=tmp, **(env or {})), check=False)
                return p.returncode, p.stdout
            except ToolError as e:
                return None, str(e)
        if procs:
            # one thread per process: the code under test has process-wide state
            with cf.ThreadPoolExecutor(procs) as ex:
                res = list(ex.map(lambda k: run1(["--threads", "1", "--part", str(k), "--of", str(procs)]), range(procs)))
            rc = next((r for r, _ in res if r != 0), 0)
            log = "\n".join(g for r, g in res if r != 0)
        else:
            rc, log = run1([])
        shutil.rmtree(tmp, ignore_errors=True)
        files = sorted(os.path.join(out, f) for f in os.listdir(out) if f.startswith("trace."))
        if rc != 0:
            cur = {f: open(os.path.join(out, f)).read() for f in os.listdir(out) if f.startswith("cur.") or f == "hang"}
            dead = [json.load(open(os.path.join(out, f))) for f in os.listdir(out) if f.startswith("deadlock.")]
            if rc == 2 or not (cur and crash_is_violation):
                raise ToolError("harness %s ended with %s\n%s" % (mode, rc, log[-3000:]))
            lines = open(scen).read().splitlines() if scen and os.path.exists(scen) else []
            hang = cur.get("hang")
            ids = [int(hang)] if hang is not None else sorted(int(v) for v in cur.values() if v.strip())
            what = "hang" if hang is not None else "process ended abnormally (%s)" % rc
            self.violation({"what": what, "scenarios": [{"run": i, "scenario": decode(lines[i]) if i < len(lines) else None} for i in ids],
                            "deadlock": dead, "log": log[-3000:]}, what)
        return [f for f in files if os.path.getsize(f)]

    def stats(self, files):
        d = os.path.dirname(files[0]) if files else self.dir
        return [json.load(open(os.path.join(d, f))) for f in os.listdir(d) if f.startswith("stats.")]

    def validate(self, module, files, scen=None, env=None, timeout=700, cfg="Trace.cfg", mem="3g", label=None):
        """Checks recorded traces against a trace specification (one TLC per file)."""
        lines = open(scen).read().splitlines() if scen else []

        def one(k):
            f = files[k]
            res = f + ".res"
            clean_tail(f)
            if not os.path.getsize(f):
                return f, {"bad": [], "known": [], "n": 0}
            self.tlc(module, cfg, env=dict(env or {}, TRACE=f, OUT=res), timeout=timeout, mem=mem)
            return f, json.load(open(res))
        with cf.ThreadPoolExecutor(CORES) as ex:
            results = list(ex.map(one, range(len(files))))
        for f, r in results:
            evs = [json.loads(x) for x in open(f)]
            if r["n"] != len(evs):
                raise ToolError("trace %s: %d of %d events consumed" % (f, r["n"], len(evs)))
            self.runs += sum(1 for e in evs if e["ev"] == "begin")
            self.events += len(evs)
            for e in evs:
                k = ":".join(str(e[x]) for x in ("ev", "f", "kind", "res", "ok", "err") if x in e and isinstance(e[x], (str, bool, int)) and len(str(e[x])) < 24)
                if k in self.kinds or len(self.kinds) < 300:
                    self.kinds[k] = self.kinds.get(k, 0) + 1
            if len(self.samples) < 3 and evs:
                self.samples.append({"trace_of": label or module, "events": shorten(evs[:6])})
            for ln, key in r["known"]:
                if key not in self.known_keys:
                    self.reject(evs, ln, lines, "unlisted deviation " + key, module)
                else:
                    self.known_seen[key] = self.known_seen.get(key, 0) + 1
            for ln in r["bad"]:
                self.reject(evs, ln, lines, None, module)

    def reject(self, evs, ln, lines, why, module):
        e = evs[ln - 1]
        run = e.get("run")
        start = ln - 1
        while start > 0 and evs[start]["ev"] != "begin":
            start -= 1
        self.violation({"what": why or "event not allowed by the specification", "spec": module, "run": run, "rejected_event": e,
                        "run_events": evs[start:ln], "scenario": decode(lines[run]) if run is not None and run < len(lines) else None},
                       why or "%s: %s" % (module, json.dumps(shorten(e))[:400]))

    def violation(self, obj, msg):
        if len(self.violations) < 20:
            d = os.path.join(BUILD, "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%s-%d.json" % (self.pid, self.tier, len(self.violations)))
            json.dump(dict(obj, property=self.pid, seed=self.seed, tier=self.tier), open(p, "w"), indent=1)
            self.violations.append((p, msg))

    def finish(self, level="model_checking", rule=None, distinct=None):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.runs,
               "samples": self.samples or ["none"], "events_validated": self.events, "model_checking_runs": self.mc_log}
        cov["events_by_kind"] = dict(sorted(self.kinds.items(), key=lambda x: -x[1])[:120])
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        for key, text in self.known_keys.items():
            print("KNOWN-FINDING: property=%s %s: %s (seen %d times in this run)" % (self.pid, key, text, self.known_seen.get(key, 0)))
        print("%s %s: %d runs, %d events validated; model checking %d distinct states, %d transitions; %.0f s" %
              (self.pid, self.tier, self.runs, self.events, self.states, self.transitions, time.time() - self.t0))
        for p, msg in self.violations:
            print("  " + msg[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        sys.stdout.flush()
        return 1 if self.violations else 0


def decode(line):
    v = json.loads(line)
    return json.loads(v) if isinstance(v, str) else v


def clean_tail(f):
    """An aborted harness may leave a partial last line and a partial last run."""
    with open(f, "rb+") as g:
        data = g.read()
        if data and not data.endswith(b"\n"):
            cut = data.rfind(b"\n") + 1
            g.truncate(cut)


def shorten(x, n=12):
    if isinstance(x, list):
        return [shorten(y) for y in x[:n]] + (["... %d more" % (len(x) - n)] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: shorten(v) for k, v in x.items()}
    if isinstance(x, str) and len(x) > 200:
        return x[:200] + "..."
    return x


def load_known(pid):
    """known: property=<id> key=<key> <text>   /   fixed: property=<id> <commit> <text>"""
    r = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r
