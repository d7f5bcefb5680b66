"""Driver for the gc-* tools: runs sessions of invocations in scratch directories, as an
unprivileged user, and records them as events for the trace specification."""
import json, multiprocessing, os, random, re, resource, shutil, stat, subprocess, tempfile, threading
from vlib import CORES, SEED, THOROUGH, ToolError, log, sh, SPEC

NOBODY = 65534
POOL = [0, 1, 2, 3, 5, 7, 9, 10, 11, 42, 99, 100, 123456789, 2**31 - 1, 2**31, 2**32, 2**32 + 1, 2**53 + 1,
        10**18, 2**63 - 1, 2**63, 10**19, 2**64 - 2, 2**64 - 1]
BADNUM = 777777777
ENV = {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8"}


_hangs = multiprocessing.Value("i", 0)
LIMIT = 64 << 20


def bounded(argv, stdin, cwd, env=ENV):
    """runs a tool; one that does not end, or does not stop printing, is killed.  After a few of
    those the others get less time: the check is going to fail anyway"""
    p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd, env=env)
    late = []

    def stop():
        late.append(1)
        p.kill()
    timer = threading.Timer(20 if _hangs.value < 10 else 1.5, stop)
    timer.start()
    try:
        try:
            p.stdin.write(stdin)
            p.stdin.close()
        except BrokenPipeError:
            pass
        out = p.stdout.read(LIMIT)
        if len(out) == LIMIT:
            stop()
        rc = p.wait()
    finally:
        timer.cancel()
        p.stdout.close()
    if late:
        with _hangs.get_lock():
            _hangs.value += 1
        return -9, ""
    return rc, out.decode("utf-8", "replace")


class Dirs:
    """one session's directories"""

    def __init__(self, base, name, decoys):
        self.root = tempfile.mkdtemp(prefix="s", dir=base)
        self.work = os.path.join(self.root, name)
        os.mkdir(self.work)
        self.last = None
        if decoys:
            self.decoys()

    def decoys(self):
        o = os.path.join(self.root, "other")
        os.makedirs(os.path.join(o, ".graph"))
        files = {"other/.graph/commands": "AddVertex 77\n", "other/file": "precious\n", "commands": "AddVertex 5\n",
                 "other/sub/deep": "x\n"}
        w = os.path.basename(self.work)
        for f in ("commands", "notes.txt", "lock.bak", ".graphrc", ".graph.bak/commands", "graph/commands",
                  "sub/.graph/commands", "sub/lock", "commands.tmp"):
            files[w + "/" + f] = "AddEdge 1 2\n"
        for f, t in files.items():
            p = os.path.join(self.root, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)
        os.makedirs(os.path.join(self.root, ".graph"))
        open(os.path.join(self.root, ".graph", "commands"), "w").write("AddVertex 3\n")

    def plant_links(self):
        """a user's own links inside the graph directory, to places outside of it"""
        g = os.path.join(self.work, ".graph")
        if os.path.isdir(g):
            os.symlink("../../other", os.path.join(g, "link"))
            os.symlink("../../other/file", os.path.join(g, "flink"))
            os.mkdir(os.path.join(g, "extra"))
            open(os.path.join(g, "extra", "f"), "w").write("x")

    def snapshot(self):
        res = {}
        for d, ds, fs in os.walk(self.root):
            for x in ds + fs:
                p = os.path.join(d, x)
                st = os.lstat(p)
                if stat.S_ISLNK(st.st_mode):
                    v = ("l", os.readlink(p))
                elif stat.S_ISDIR(st.st_mode):
                    v = ("d", st.st_mode)
                else:
                    try:
                        v = ("f", st.st_mode, open(p, "rb").read())
                    except PermissionError:
                        v = ("f", st.st_mode, st.st_size, st.st_mtime_ns)
                res[os.path.relpath(p, self.root)] = v
        return res

    def files(self):
        new, old = self.snapshot(), self.last or {}
        w = os.path.basename(self.work)
        own = lambda p: p == w + "/lock" or p == w + "/.graph" or p.startswith(w + "/.graph/")
        out, same = [], True
        if self.last is not None:
            for p in sorted(set(new) | set(old)):
                if new.get(p) != old.get(p):
                    if own(p):
                        same = False
                    else:
                        out.append(p)
        self.last = new
        return {"outside": out, "same": same}

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


class Runner:
    def __init__(self, sess, bins, base):
        self.s = sess
        self.bins = bins
        self.ids = sess["ids"]
        self.rank = {v: i + 1 for i, v in enumerate(self.ids)}
        self.rng = random.Random(sess.get("seed", 0))
        self.d = Dirs(base, sess.get("dir", "work"), sess.get("decoys", False))
        self.out = ""
        if sess.get("nodir"):
            os.rmdir(self.d.work)

    def id(self, r):
        return str(self.ids[r - 1])

    def back(self, t):
        try:
            return self.rank.get(int(t), BADNUM)
        except ValueError:
            return BADNUM

    def num(self, t):
        try:
            n = int(t)
        except ValueError:
            return BADNUM
        return n if abs(n) < 2**30 else BADNUM

    # ------------------------------------------------------------ running
    def where(self, args):
        """[argv, cwd] with the path given in one of the ways a user can give it"""
        w, name = self.d.work, os.path.basename(self.d.work)
        mode = self.s.get("where") or self.rng.choice(["abs", "abs", "cwd", "rel", "slash", "eq", "last"])
        if mode == "cwd":
            return args, w
        if mode == "rel":
            return [args[0], "-p", name] + args[1:], self.d.root
        if mode == "slash":
            return [args[0], "--path", "./" + name + "/"] + args[1:], self.d.root
        if mode == "eq":
            return [args[0], "--path=" + w] + args[1:], "/"
        if mode == "last":
            return args + ["-p", w], "/"
        return [args[0], "-p", w] + args[1:], "/"

    def run(self, args, stdin=b""):
        args, cwd = self.where(args)
        args = [os.path.join(self.bins, args[0])] + args[1:]
        if not os.path.isdir(cwd):
            self.out = ""
            return 2
        rc, self.out = bounded(args, stdin, cwd)
        if rc == 0:
            return 0
        return 1 if rc > 0 else 2  # 2: killed by a signal

    def helper(self, name, *args):
        return bounded([os.path.join(self.bins, name)] + list(args), b"", "/")

    def opts(self, e, short):
        a = []
        for k, vs in e["opts"]:
            s = k in short and self.rng.random() < 0.5
            flag = "-" + short[k] if s else "--" + k
            vals = [str(x) for x in vs] if k in NUMERIC else [self.id(x) for x in vs]
            if self.rng.random() < 0.05:
                vals = [v if v[0] == "-" else self.rng.choice(["", "0", "000"]) + v for v in vals]
            if k == "vertex" and len(vals) > 1 and self.rng.random() < 0.3:
                for v in vals:
                    a += [flag, v]
            elif len(vals) == 1 and not s and self.rng.random() < 0.2:
                a += [flag + "=" + vals[0]]
            else:
                a += [flag] + vals
        return a

    # ------------------------------------------------------------ answers
    def vlist(self, lines):
        return [self.back(x) for x in lines]

    def path_answer(self):
        if "not reachable" in self.out:
            return {"k": "none", "ans": True}
        m = re.search(r"total cost of (-?\d+)", self.out)
        if not m:
            return {"k": "garbage", "ans": False}
        rest = self.out[m.end():].split("\n")[1:]
        return {"k": "ok", "ans": True, "c": self.num(m.group(1)),
                "p": self.vlist([x.strip() for x in rest if x.strip()])}

    def cyc_answer(self, act):
        lines = [x.strip() for x in self.out.split("\n") if x.strip()]
        cyc = lambda t: self.vlist([x for x in re.split(r"[,\s]+", t.strip("[]")) if x])
        bad = {"k": "garbage", "ans": bool(lines)}
        ok = {"k": "ok", "ans": bool(lines), "cs": [], "n": BADNUM}
        if act in ("all", "head", "take-n"):
            if any(not re.fullmatch(r"\[[\d, ]+\]", x) for x in lines):
                return bad
            ok["cs"] = [cyc(x) for x in lines]
            return ok
        if len(lines) != 1:
            return bad
        if act in ("count", "girth"):
            m = re.search(r"(\d+|[Ii]nfinity)\s*$", lines[0])
            if not m:
                return bad
            ok["n"] = 0 if m.group(1).lower() == "infinity" else self.num(m.group(1))
            if act == "girth" and m.group(1) == "0":
                ok["n"] = BADNUM
            return ok
        m = re.search(r"(\[[\d, ]+\]|N/A)\s*$", lines[0])
        if not m:
            return bad
        ok["cs"] = [] if m.group(1) == "N/A" else [cyc(m.group(1))]
        return ok

    def dump(self):
        return self.parse_dump(*self.helper("dump", self.d.work))

    def parse_dump(self, rc, out):
        lines = out.split("\n")
        if rc == 0 and lines and lines[0] == "err":
            return {"k": "err"}
        if rc != 0 or lines[0] != "ok":
            return {"k": "crash"}
        vs, es = [], []
        for x in lines[1:]:
            f = x.split()
            if f and f[0] == "v":
                vs.append(self.back(f[1]))
            elif f and f[0] == "e":
                es.append([self.back(f[1]), self.back(f[2])])
        return {"k": "ok", "vs": sorted(vs), "es": sorted(es)}

    def argv(self, e):
        """the invocation an event stands for, and what is typed into it"""
        op = e["op"]
        if op in ("init", "build", "desc", "topo"):
            return [TOOLS[op]], b""
        if op == "add":
            a = self.opts(e, {"vertex": "v", "edge": "e", "chain": "c", "cycle": "O", "star": "X", "clique": "C"})
            if e["rev"]:
                f = self.rng.choice(["-r", "--reverse"])
                a = [f] + a if self.rng.random() < 0.5 else a + [f]
            return ["gc-add"] + a, b""
        if op == "del":
            return ["gc-delete"] + self.opts(e, {"vertex": "v", "edge": "e"}), b""
        if op in ("clean", "rand"):
            a = []
            if op == "rand":
                if "_n" not in e or e["_n"]:
                    a += [self.rng.choice(["-v", "--vertex-count"]), str(e["n"])]
                if e.get("_m"):
                    a += [self.rng.choice(["-e", "--edge-count"]), str(e["m"])]
            if e["conf"] == "force":
                a.append(self.rng.choice(["-f", "--force"]))
                inp = b"no\n"
            else:
                inp = (e["_in"].encode("latin-1") if max(e["_in"], default="") < "\u0100" else e["_in"].encode()) if "_in" in e else (e["conf"] + "\n").encode()
            if op == "clean" and self.rng.random() < 0.3:
                a.append(self.rng.choice(["-s", "--silent"]))
            return [TOOLS[op]] + a, inp
        if op in ("sp", "csp"):
            a = [self.rng.choice(["-s", "--start"]), self.id(e["s"]), self.rng.choice(["-e", "--end"]), self.id(e["t"])]
            if op == "csp":
                a += self.opts(e, {})
            return [TOOLS[op]] + a, b""
        if op == "cyc":
            short = {"count": "c", "head": "h", "take-n": "n", "all": "a", "shortest": "s", "longest": "L"}
            a = e["act"]
            f = "-" + short[a] if a in short and self.rng.random() < 0.5 else "--" + a
            args = [f] + ([str(e["n"])] if a == "take-n" else [])
            o = self.opts(e, {})
            return ["gc-cycle"] + (args + o if self.rng.random() < 0.5 else o + args), b""
        raise ValueError(op)

    def parse(self, e, rc):
        """the answer, from the exit status and self.out"""
        op = e["op"]
        if op in ("init", "add", "del", "clean"):
            return {"rc": rc}
        if op == "build":
            v, x = re.search(r"Vertices: (\d+)", self.out), re.search(r"Edges: (\d+)", self.out)
            return {"rc": rc, "vc": self.num(v.group(1)) if v else -1, "ec": self.num(x.group(1)) if x else -1}
        if op == "rand":
            res = {"rc": rc, "k": "err", "vs": [], "es": []}
            if rc == 0:
                res.update(self.dump())
            return res
        if op == "desc":
            f = {}
            for k, pat in (("vc", r"Vertices:\s*(\d+)"), ("ec", r"Edges:\s*(\d+)"), ("mn", r"Min vertex id:\s*(\d+|-)"),
                           ("mx", r"Max vertex id:\s*(\d+|-)")):
                m = re.search(pat, self.out)
                if m:
                    f[k] = m.group(1)
            res = {"rc": rc, "ans": bool(f), "k": "ok" if len(f) == 4 else "garbage"}
            if len(f) == 4:
                res.update({"vc": self.num(f["vc"]), "ec": self.num(f["ec"])})
                for k in ("mn", "mx"):
                    res[k] = 0 if f[k] == "-" else self.back(f[k])
            return res
        if op == "topo":
            if "not a DAG" in self.out:
                return {"rc": rc, "ans": True, "k": "none"}
            m = re.search(r"order:(.*)", self.out)
            if not m:
                return {"rc": rc, "ans": False, "k": "garbage"}
            return {"rc": rc, "ans": True, "k": "ok", "p": self.vlist(m.group(1).split())}
        if op in ("sp", "csp"):
            res = self.path_answer()
            res["rc"] = rc
            if rc == 2:
                res["k"] = "hang"
            return res
        res = self.cyc_answer(e["act"])
        res["rc"] = rc
        return res

    def spoil(self, how, f):
        """the graph's file becomes unreadable, or gets a line that is no command"""
        if not os.path.exists(f):
            return
        if how == "mode" and os.getuid():
            os.chmod(f, 0)
            return
        data = open(f, "rb").read()
        ls = data.split(b"\n")[:-1]
        bad = how if isinstance(how, str) and how != "mode" else "AddVertex x"
        at = {0: 0, 1: len(ls), 2: len(ls)}.get(self.rng.randrange(5), self.rng.randint(0, len(ls)))
        ls.insert(at, bad.encode("latin-1"))
        open(f, "wb").write(b"\n".join(ls) + b"\n")

    # ------------------------------------------------------------ steps
    def step(self, e):
        op, w = e["op"], self.d.work
        lockf = os.path.join(w, "lock")
        if op == "put":
            if e.get("_symlink"):
                # the graph lies elsewhere
                os.makedirs(os.path.join(self.d.root, "elsewhere"), exist_ok=True)
                os.symlink(self.rng.choice(["../elsewhere", os.path.join(self.d.root, "elsewhere")]), os.path.join(w, ".graph"))
            os.makedirs(os.path.join(w, ".graph"), exist_ok=True)
            t = ""
            for c in e["cs"]:
                t += ["AddVertex", "AddEdge", "RemoveVertex", "RemoveEdge"][c[0]]
                t += "".join(" " + self.id(x) for x in c[1:]) + "\n"
                if self.s.get("noisy") and self.rng.random() < 0.2:
                    t += self.rng.choice(["# a comment\n", "\n", " # indented\n", "#AddVertex 12345\n"])
            open(os.path.join(w, ".graph", "commands"), "w").write(t)
            if e.get("_links"):
                self.d.plant_links()
            return {}
        if op == "lock":
            os.makedirs(w, exist_ok=True)
            if os.path.exists(lockf):
                return {"rc": 0}
            # somebody else's: just taken, or long ago, with or without something in it
            with open(lockf, "w") as f:
                f.write(self.rng.choice(["", "", "999999\n", "held by somebody\n", "\0" * 5000]))
            if self.rng.random() < 0.5:
                age = self.rng.choice([90, 4000, 90000, 10 ** 8, -4000])
                t = os.stat(lockf).st_mtime - age
                os.utime(lockf, (t, t))
            if self.rng.random() < 0.2:
                os.chmod(lockf, self.rng.choice([0o400, 0o444, 0o666]))
            return {"rc": 0}
        if op == "spoil":
            self.spoil(e["_how"], os.path.join(w, ".graph", "commands"))
            return {"rc": 0}
        if op in ("ro", "rw"):
            g, f = os.path.join(w, ".graph"), os.path.join(w, ".graph", "commands")
            for p, a, b in ((f, 0o444, 0o644), (g, 0o555, 0o755), (w, 0o555, 0o755)):
                if os.path.exists(p):
                    os.chmod(p, a if op == "ro" else b)
            self.d.last = None
            return {}
        if op == "unlock":
            if os.path.exists(lockf):
                os.remove(lockf)
            return {"rc": 0}
        if op == "lockis":
            if e.get("_via") == "lib":
                return {"b": self.helper("apply", w, "is_locked")[0] == 10}
            return {"b": os.path.exists(lockf)}
        if op == "dump":
            return self.dump()
        if op == "files":
            return self.d.files()
        if e.get("_via") == "lib":
            rc, _ = self.helper("apply", w, e["_fn"], *[self.id(x) for x in e["_ids"]])
            return {"rc": 0 if rc == 0 else (1 if rc > 0 else 2), "vc": -1, "ec": -1}
        if op in TOOLS:
            argv, inp = self.argv(e)
            return self.parse(e, self.run(argv, stdin=inp))
        if op == "run":
            return {"rc": self.run(e["_argv"])}
        if op == "bad":
            rc = self.run(e["_argv"])
            tool = e["_argv"][0]
            if tool in ("gc-short-path", "gc-csp"):
                ans = self.path_answer()["ans"]
            elif tool == "gc-cycle":
                ans = bool(re.search(r"\[\d|count:|girth:|cycle:|hamiltonian:", self.out))
            else:
                ans = False
            return {"rc": rc, "ans": ans}
        raise ValueError(op)

    def go(self):
        evs = []
        try:
            for e in self.s["steps"]:
                res = self.step(e)
                x = {k: v for k, v in e.items() if not k.startswith("_")}
                for k in ("_argv", "_in", "_fn"):
                    if k in e:
                        x["x" + k] = str(e[k]).encode("ascii", "backslashreplace").decode()
                x["res"] = res
                evs.append(x)
        finally:
            self.d.close()
        return json.dumps({"id": self.s["id"], "ev": evs, "ids": [str(i) for i in self.ids]}, ensure_ascii=True)


TOOLS = {"init": "gc-init", "build": "gc-build", "desc": "gc-desc", "topo": "gc-topo-sort", "add": "gc-add",
         "del": "gc-delete", "clean": "gc-clean", "rand": "gc-random", "sp": "gc-short-path", "csp": "gc-csp",
         "cyc": "gc-cycle"}
NUMERIC = {"min-length", "max-length", "exact-length", "min-score", "max-score", "exact-score"}
_ctx = {}


def _worker_init(bins, base):
    _ctx["bins"] = bins
    _ctx["base"] = base
    os.umask(0o022)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        except OSError:
            pass


def _worker(sess):
    return Runner(sess, _ctx["bins"], _ctx["base"]).go()


def run_sessions(c, bins, sessions, name="cli"):
    """runs all sessions, returns the trace file"""
    base = os.path.join(c.scratch, "w-" + name)
    os.makedirs(base, exist_ok=True)
    os.chmod(base, 0o777)
    for i, s in enumerate(sessions):
        s.setdefault("seed", SEED * 1000003 + i)
        s["id"] = "%s#%d" % (s.get("id", name), i)
    out = os.path.join(c.scratch, name + ".ndjson")
    with multiprocessing.Pool(CORES, _worker_init, (bins, base)) as pool:
        with open(out, "w") as f:
            for t in pool.imap(_worker, sessions, chunksize=4):
                f.write(t + "\n")
    return out


def binaries(c, helpers=("dump",)):
    d = c.build_cli()
    for h in helpers:
        try:
            p = c.build_cmdlib(h)
        except ToolError as t:
            if h != "apply":
                raise
            log("  library driver not built: " + str(t)[-300:])
            continue
        shutil.copy2(p, os.path.join(d, h))
        os.chmod(os.path.join(d, h), 0o755)
    return d


# ------------------------------------------------------------------ generation
class Model:
    """a graph, to choose interesting arguments (never to judge)"""

    def __init__(self):
        self.V, self.E = set(), set()

    def apply(self, c):
        if c[0] == 0:
            self.V.add(c[1])
        elif c[0] == 1:
            self.V |= {c[1], c[2]}
            self.E.add((c[1], c[2]))
        elif c[0] == 2:
            self.V.discard(c[1])
            self.E = {e for e in self.E if c[1] not in e}
        else:
            self.E.discard((c[1], c[2]))


def pick_ids(rng, n):
    if rng.random() < 0.4:
        return list(range(1, n + 1))
    if n > len(POOL) // 2:
        more = set(POOL)
        while len(more) < n + len(POOL):
            more.add(rng.choice([rng.getrandbits(64), rng.getrandbits(rng.randint(1, 64)), 2 ** 64 - 1 - rng.randint(0, 300)]))
        return sorted(rng.sample(sorted(more), n))
    return sorted(rng.sample(POOL, n))


def rand_cmds(rng, n, k, churn=0.25, loops=True):
    cs, m = [], Model()
    for _ in range(k):
        r = rng.random()
        if r < churn and m.V:
            if rng.random() < 0.5 and m.E:
                a, b = rng.choice(sorted(m.E))
                c = [3, a, b]
            else:
                c = [2, rng.choice(sorted(m.V))]
        elif r < churn + 0.15:
            c = [0, rng.randint(1, n)]
        else:
            a, b = rng.randint(1, n), rng.randint(1, n)
            if a == b and (not loops or rng.random() < 0.6):
                b = a % n + 1
            c = [1, a, b]
        m.apply(c)
        cs.append(c)
    return cs, m


def graph_cmds(n, bits, mask):
    """n-vertex graphs by number: mask selects vertices, bits the edges among them"""
    vs = [v for v in range(1, n + 1) if mask >> (v - 1) & 1]
    cs = [[0, v] for v in vs]
    m = Model()
    i = 0
    for a in vs:
        for b in vs:
            if bits >> i & 1:
                cs.append([1, a, b])
            i += 1
    for c in cs:
        m.apply(c)
    return cs, m


def graphs(rng, small, random_, nmax=6, loops=True):
    """[(ids, cmds, model)]: samples of the graphs on up to 3 vertices and random ones"""
    res = [([1], [], Model())]
    allsmall = [(n, b) for n in (1, 2, 3) for b in range(2 ** (n * n))]
    sel = allsmall if small is None or small >= len(allsmall) else rng.sample(allsmall, small)
    for n, b in sel:
        cs, m = graph_cmds(n, b, 2 ** n - 1)
        rng.shuffle(cs)
        m = Model()
        for c in cs:
            m.apply(c)
        res.append((pick_ids(rng, n), cs, m))
    for _ in range(random_):
        n = rng.randint(2, nmax)
        cs, m = rand_cmds(rng, n, rng.randint(1, 2 * n + 6), churn=rng.choice([0, 0.15, 0.35]), loops=loops)
        res.append((pick_ids(rng, n), cs, m))
    return res


def rings(rng, count, nmin=8, nmax=30):
    """[(ids, cmds, model)]: a ring with a few chords, short rings hanging off it, loops: few cycles, some long"""
    res = []
    for _ in range(count):
        n = rng.randint(nmin, nmax)
        p = list(range(1, n + 1))
        rng.shuffle(p)
        k = rng.choice([n, n, n // 2, n - 2, n // 3])
        es = [(p[i], p[(i + 1) % k]) for i in range(k)]
        i = k
        while i < n:
            j = min(n, i + rng.randint(1, 4))
            es += [(p[x], p[x + 1 if x + 1 < j else i]) for x in range(i, j)]
            if rng.random() < 0.6:
                es.append((p[i], rng.choice(p[:i])))
            if rng.random() < 0.6:
                es.append((rng.choice(p[:i]), p[i]))
            i = j
        es += [(rng.choice(p), rng.choice(p)) for _ in range(rng.choice([0, 1, 2, 3]))]
        cs = [[1, a, b] for a, b in es]
        rng.shuffle(cs)
        m = Model()
        for c in cs:
            m.apply(c)
        res.append((pick_ids(rng, n), cs, m))
    return res


def shapes(rng, sizes):
    """[(ids, cmds, model)]: long chains and rings, wide stars, a ladder, of given sizes"""
    res = []
    for n in sizes:
        for shape in ("chain", "ring", "out", "in", "ladder"):
            p = list(range(1, n + 1))
            if rng.random() < 0.5:
                rng.shuffle(p)
            if shape == "chain":
                es = list(zip(p, p[1:]))
            elif shape == "ring":
                es = list(zip(p, p[1:] + p[:1]))
            elif shape == "out":
                es = [(p[0], x) for x in p[1:]]
            elif shape == "in":
                es = [(x, p[0]) for x in p[1:]]
            else:
                es = list(zip(p, p[1:])) + list(zip(p, p[3:]))
            cs = [[1, a, b] for a, b in es]
            if rng.random() < 0.5:
                rng.shuffle(cs)
            m = Model()
            for c in cs:
                m.apply(c)
            base = rng.choice([0, 1, 2 ** 32 - n // 2, 2 ** 64 - n])
            res.append((list(range(base, base + n)), cs, m))
    return res
