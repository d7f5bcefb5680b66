"""Driver library: builds the code under test, runs the harness, runs TLC on the
design models and on the recorded traces, and reports."""
import atexit, glob, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
THOROUGH = TIER == "thorough"
CORES = os.cpu_count() or 4
# how much more than the base amount the quick tier of a check runs (the thorough tier has its own amounts)
QUICK_SCALE = {"C07": 6, "C15": 6, "C17": 6, "C18": 6, "C05": 2, "C06": 2, "C09": 5, "C10": 2, "C11": 2, "C14": 2, "C16": 2, "C19": 8, "C22": 5}
SCALE = 1


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              errors="replace", timeout=timeout, env=e, cwd=cwd)
    except subprocess.TimeoutExpired as x:
        raise ToolError("timeout: %s" % (cmd,)) from x


class Check:
    def __init__(self, prop):
        global SCALE
        SCALE = 1 if THOROUGH else QUICK_SCALE.get(prop, 3)
        self.prop = prop
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="gcv-%s-" % prop, dir="/tmp")
        os.chmod(self.scratch, 0o755)
        atexit.register(lambda: shutil.rmtree(self.scratch, ignore_errors=True))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.models = []
        self.known = []
        self.extra = {}
        self.assumptions = []
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)

    # ---------------------------------------------------------------- build
    def build_core(self, bin_):
        r = sh(["cargo", "build", "--offline", "-q", "--bin", bin_], cwd=os.path.join(VERIF, "harness"),
               env={"CARGO_TARGET_DIR": TARGET, "RUSTFLAGS": "-Awarnings"})
        if r.returncode:
            raise ToolError("harness build failed:\n" + r.stdout[-4000:])
        return os.path.join(TARGET, "debug", bin_)

    def build_cmdlib(self, bin_):
        r = sh(["cargo", "build", "--offline", "-q", "--bin", bin_], cwd=os.path.join(VERIF, "harness-cmd"),
               env={"CARGO_TARGET_DIR": os.path.join(TARGET, "cmd"), "RUSTFLAGS": "-Awarnings"})
        if r.returncode:
            raise ToolError("harness-cmd build failed:\n" + r.stdout[-4000:])
        return os.path.join(TARGET, "cmd", "debug", bin_)

    def build_cli(self):
        """Builds the gc-* tools and copies them to a place any user can execute."""
        t = os.path.join(TARGET, "cli")
        r = sh(["cargo", "build", "--offline", "--locked", "-q", "-p", "gc-command", "--bins"], cwd=REPO,
               env={"CARGO_TARGET_DIR": t, "RUSTFLAGS": "-Awarnings"})
        if r.returncode:
            raise ToolError("build of the tools failed:\n" + r.stdout[-4000:])
        d = os.path.join(self.scratch, "bin")
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(os.path.join(t, "debug")):
            p = os.path.join(t, "debug", f)
            if f.startswith("gc-") and os.path.isfile(p) and os.access(p, os.X_OK):
                shutil.copy2(p, os.path.join(d, f))
                os.chmod(os.path.join(d, f), 0o755)
        return d

    # ---------------------------------------------------------------- harness
    def run_harness(self, exe, name="trace", input_=None, timeout=600, env=None):
        out = os.path.join(self.scratch, name + ".ndjson")
        cmd = ["prlimit", "--as=%d" % (12 << 30), exe, out] + ([input_] if input_ else [])
        e = {"VERIF_SEED": str(SEED), "VERIF_TIER": TIER, "VERIF_SCALE": str(SCALE)}
        e.update(env or {})
        t = time.time()
        r = sh(cmd, timeout=timeout, env=e)
        log("  harness %s: rc=%d %.1fs %s" % (os.path.basename(exe), r.returncode, time.time() - t,
                                              r.stdout.strip()[-200:]))
        if r.returncode == 77 and os.path.exists(out + ".hang"):
            self.append_partial(out, out + ".hang", '"k":"hang"')
        elif r.returncode < 0 or r.returncode == 134:
            # the code under test took the process down (abort, stack overflow)
            self.append_partial(out, out + ".side", '"k":"abort"')
        elif r.returncode:
            raise ToolError("harness failed (%d):\n%s" % (r.returncode, r.stdout[-3000:]))
        return out

    def append_partial(self, out, src, marker):
        part = open(src, errors="replace").read()
        if marker not in part:
            raise ToolError("harness died outside of the code under test")
        data = open(out, "rb").read()
        data = data[: data.rfind(b"\n") + 1]  # drop a torn last line
        with open(out, "wb") as f:
            f.write(data + part.encode() + b"\n")

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=None, timeout=800, args=(), heap="6g"):
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.scratch)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
               "-Djava.io.tmpdir=" + self.scratch, "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", meta, "-workers", str(workers or CORES), "-config", cfg, *args, module + ".tla"]
        t = time.time()
        e = {"VERIF_SEED": str(SEED), "VERIF_TIER": TIER, "VERIF_SCALE": str(SCALE)}
        e.update(env or {})
        r = sh(cmd, timeout=timeout, env=e, cwd=SPEC)
        shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        log("  tlc %s/%s: %.1fs generated=%d distinct=%d" % (module, cfg, time.time() - t, gen, dist))
        return out, gen, dist

    def model(self, module, cfg=None, timeout=800, min_states=2, env=None, args=(), workers=None):
        """Exhaustive check of a design model; independent of the code."""
        cfg = cfg or module + ".cfg"
        out, gen, dist = self.tlc(module, cfg, timeout=timeout, env=env, args=args, workers=workers)
        if "No error has been found" not in out or dist < min_states:
            raise ToolError("design model %s/%s failed:\n%s" % (module, cfg, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "cfg": cfg, "distinct": dist, "generated": gen})
        if THOROUGH and cfg == module + ".cfg":
            for deep in sorted(glob.glob(os.path.join(SPEC, module + "_T*.cfg"))):
                self.model(module, os.path.basename(deep), timeout=3000, env=env, args=args, workers=workers)
        return out

    def flawed(self, module, *cfgs):
        """Variants of a design with a planted flaw: TLC has to find it (the invariants have teeth)."""
        for cfg in cfgs:
            out, gen, dist = self.tlc(module, cfg)
            m = re.findall(r"Invariant (\w+) is violated", out)
            if not m:
                raise ToolError("flawed design %s/%s was not refuted:\n%s" % (module, cfg, out[-2000:]))
            self.models.append({"module": module, "cfg": cfg, "refuted_by": m[0], "distinct": dist, "generated": gen})

    def validate(self, module, trace, cfg=None, timeout=800, exact=True, env=None, chunk=None):
        """Checks recorded sessions against the trace specification."""
        cfg = cfg or module + ".cfg"
        sessions = [l for l in open(trace, encoding="utf-8") if l.strip()]
        if not sessions:
            raise ToolError("empty trace")
        nev = 0
        for l in sessions:
            nev += len(json.loads(l)["ev"])
        e = {"TRACE_FILE": trace}
        e.update(env or {})
        out, gen, dist = self.tlc(module, cfg, env=e, timeout=timeout)
        for k in sorted(set(re.findall(r'"?KNOWN-FINDING:([^"\n]*)"?', out))):
            if k not in self.known:
                self.known.append(k)
        if "No error has been found" in out:
            if exact and dist != nev + len(sessions):
                raise ToolError("vacuous validation: %d states, %d expected" % (dist, nev + len(sessions)))
            self.traces += len(sessions)
            self.events += nev
            self.states += dist
            self.transitions += gen
            for i in (0, len(sessions) // 2, len(sessions) - 1):
                if len(self.samples) < 8:
                    self.samples.append(sessions[i].strip()[:600])
            return
        sid = re.findall(r"/\\ sid = (\d+)", out)
        pos = re.findall(r"/\\ l = (\d+)", out)
        bad = ("Deadlock reached" in out or "is violated" in out
               or "The behavior up to this point is" in out or "The error occurred when TLC was evaluating" in out)
        if not (bad and sid and pos):
            raise ToolError("TLC failed on %s:\n%s" % (module, out[-3000:]))
        s = json.loads(sessions[int(sid[-1]) - 1])
        n = int(pos[-1])
        ev = s["ev"][n - 1] if n <= len(s["ev"]) else None
        reason = re.findall(r"Error: (.*)", out)
        rp = self.replay({"property": self.prop, "spec": module, "session": s["id"], "rejected_event_index": n,
                          "rejected_event": ev, "events": s["ev"], "tlc": reason[:3], "seed": SEED, "tier": TIER,
                          "state": re.findall(r"State \d+:.*?(?=\n\n|\Z)", out, re.S)[-1:]})
        raise Violation("session %s event %d not allowed by %s: %s" % (s["id"], n, module, json.dumps(ev)[:400]), rp)

    # ---------------------------------------------------------------- reporting
    def replay(self, obj):
        p = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (self.prop, TIER, os.getpid()))
        with open(p, "w") as f:
            json.dump(obj, f, indent=1)
        return p

    def evidence(self, violations):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "design_models": self.models, "samples": self.samples or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def run(prop, fn):
    c = Check(prop)
    try:
        fn(c)
    except Violation as v:
        c.evidence(1)
        print("what: " + v.what)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay), flush=True)
        return 1
    except ToolError as t:
        print("TOOL-ERROR property=%s %s" % (prop, t), flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        print("TOOL-ERROR property=%s" % prop, flush=True)
        return 2
    known = load_known(prop)
    for k in c.known:
        k = k.strip()
        if not any(k.startswith(x) for x in known):
            print("TOOL-ERROR property=%s finding not listed: %s" % (prop, k))
            return 2
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k] if k in known else k))
    c.evidence(0)
    print("OK property=%s tier=%s traces=%d states=%d %.1fs" % (prop, TIER, c.traces, c.states, time.time() - c.t0))
    return 0


def load_known(prop):
    """known_findings.txt: 'finding: property=<id> <key>: <what fails>' lines."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (\S+): (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(2) + ": " + m.group(3)
    return res
