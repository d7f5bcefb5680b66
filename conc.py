"""C05 and C06: tools run under an interposed file layer (shim/gcshim.c): every interleaving of the
file operations of several tools, and every single fault in one tool.  What comes out is judged by
TraceCli."""
import heapq, json, multiprocessing, os, random, select, shutil, socket, subprocess
import cli
import clichecks as cc
from cli import rand_cmds
from vlib import CORES, SEED, THOROUGH, ToolError, VERIF, log, sh


def build_shim(c, bins):
    so = os.path.join(bins, "gcshim.so")
    r = sh(["gcc", "-O1", "-fno-delete-null-pointer-checks", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "shim", "gcshim.c"), "-ldl"])
    if r.returncode:
        raise ToolError("shim build failed:\n" + r.stdout[-2000:])
    os.chmod(so, 0o755)
    return so


class Proc:
    """one tool, stopped before each of its file operations"""

    def __init__(self, run, e, so):
        self.e = e
        if e["op"] == "dump":
            argv, inp, where = [os.path.join(run.bins, "dump"), run.d.work], b"", "/"
        else:
            argv, inp = run.argv(e)
            argv = [os.path.join(run.bins, argv[0]), "-p", run.d.work] + argv[1:]
        a, b = socket.socketpair()
        env = dict(cli.ENV, LD_PRELOAD=so, GCV_ROOT=run.d.root, GCV_FD=str(b.fileno()))
        self.p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  cwd="/", env=env, pass_fds=[b.fileno()])
        b.close()
        self.p.stdin.write(inp)
        self.p.stdin.close()
        self.sock = a
        self.rc = None
        self.ops = []
        self.at = None

    def wait(self, timeout=15):
        """until it stands before its next operation, or has ended"""
        buf = b""
        while not buf.endswith(b"\n"):
            r, _, _ = select.select([self.sock], [], [], timeout)
            if not r:
                self.p.kill()
                self.rc = 2
                with cli._hangs.get_lock():
                    cli._hangs.value += 1
                break
            x = self.sock.recv(64)
            if not x:
                break
            buf += x
        if buf.endswith(b"\n"):
            self.at = buf.decode().strip()
            return
        self.at = None
        out = self.p.stdout.read().decode("utf-8", "replace")
        rc = self.p.wait()
        if self.rc is None:
            self.rc = 0 if rc == 0 else (1 if rc > 0 else 2)
        self.out = out
        self.sock.close()
        self.p.stdout.close()

    def go(self):
        self.ops.append(self.at)
        self.sock.send(b"g")
        self.wait()


def one_schedule(job, prefix, rng=None):
    """runs the tools of the job once, following prefix, then without preemption (or at random).
    Returns (events, choices made, alternatives at each choice)"""
    run = cli.Runner(job, _ctx["bins"], _ctx["base"])
    try:
        evs = []
        for e in job["pre"]:
            evs.append(dict({k: v for k, v in e.items() if k[0] != "_"}, res=run.step(e)))
        run.rng = random.Random(job["seed"])
        ps = [Proc(run, e, _ctx["so"]) for e in job["cmds"]]
        for p in ps:
            p.wait()
        made, alts, cur = [], [], None
        while True:
            en = [i for i, p in enumerate(ps) if p.at is not None]
            if not en:
                break
            if len(made) < len(prefix) and prefix[len(made)] in en:
                i = prefix[len(made)]
            elif rng:
                i = rng.choice(en)
            else:
                i = cur if cur in en else en[0]
            made.append(i)
            alts.append([(x, cur in en and x != cur) for x in en])
            ps[i].go()
            cur = i
        cmds = []
        for p in ps:
            run.out = p.out
            x = {k: v for k, v in p.e.items() if k[0] != "_"}
            if p.e["op"] == "dump":
                x["res"] = run.parse_dump(p.rc, p.out)
            elif p.e["op"] == "rand":
                x["res"] = {"rc": p.rc}
            else:
                x["res"] = run.parse(p.e, p.rc)
            cmds.append(x)
        evs.append({"op": "par", "cmds": cmds,
                    "res": {"dump": run.dump(), "lock": os.path.exists(os.path.join(run.d.work, "lock"))},
                    "x_schedule": "".join(str(i) for i in made), "x_ops": [p.ops for p in ps]})
        for e in job.get("post", []):
            evs.append(dict({k: v for k, v in e.items() if k[0] != "_"}, res=run.step(e)))
        return evs, made, alts
    finally:
        run.d.close()


def explore(job):
    """all interleavings, fewest preemptions first, up to job['cap'] of them"""
    seen, out, n = set(), [], 0
    heap, k = [(0, 0, [])], 1
    done = {()}
    rng = random.Random(job["seed"])
    exhaustive = True
    while heap:
        if n >= job["cap"] or cli._hangs.value > 5:
            exhaustive = False
            break
        pre, _, prefix = heapq.heappop(heap)
        evs, made, alts = one_schedule(job, prefix)
        n += 1
        cost = 0
        for j in range(len(made)):
            if j >= len(prefix):
                for x, preempts in alts[j]:
                    if x != made[j]:
                        np = tuple(made[:j] + [x])
                        if np not in done:
                            done.add(np)
                            heapq.heappush(heap, (cost + (1 if preempts else 0), rng.random(), list(np)))
            cost += dict(alts[j])[made[j]]
        add(out, seen, evs)
    if not exhaustive and cli._hangs.value <= 5:
        for _ in range(job.get("random", 50)):
            add(out, seen, one_schedule(job, [], rng)[0])
            n += 1
    return out, n, exhaustive


def add(out, seen, evs):
    key = json.dumps([{k: v for k, v in e.items() if k[:2] != "x_"} for e in evs], sort_keys=True)
    if key not in seen:
        seen.add(key)
        out.append(evs)


# ------------------------------------------------------------------ faults
def faulted(job):
    """the tool of the job under every single fault"""
    out, seen, n, ops = [], set(), 0, []

    def once(kind, at, errno=0, cut=0):
        run = cli.Runner(job, _ctx["bins"], _ctx["base"])
        try:
            evs = []
            for e in job["pre"]:
                evs.append(dict({k: v for k, v in e.items() if k[0] != "_"}, res=run.step(e)))
            run.rng = random.Random(job["seed"])
            argv, inp = run.argv(job["cmd"])
            argv = [os.path.join(run.bins, argv[0]), "-p", run.d.work] + argv[1:]
            lg = os.path.join(run.d.root, "..", "log-%d" % os.getpid())
            if os.path.exists(lg):
                os.remove(lg)
            env = dict(cli.ENV, LD_PRELOAD=_ctx["so"], GCV_ROOT=run.d.root, GCV_LOG=lg)
            if kind:
                env["GCV_FAULT"] = "%d:%s:%d:%d" % (at, kind, errno, cut)
            code, _ = cli.bounded(argv, inp, "/", env)
            done = open(lg).read().split() if os.path.exists(lg) else []
            if os.path.exists(lg):
                os.remove(lg)
            lockf = os.path.join(run.d.work, "lock")
            if os.path.exists(lockf):
                os.remove(lockf)
            rc = 0 if code == 0 else (1 if code > 0 else 2)
            evs.append({"op": "fault", "cmd": {k: v for k, v in job["cmd"].items() if k[0] != "_"}, "kind": kind or "none",
                        "res": {"rc": rc, "dump": run.dump()}, "x_at": "%d %s errno=%d cut=%d" % (at, kind, errno, cut)})
            for e in job.get("post", []):
                evs.append(dict({k: v for k, v in e.items() if k[0] != "_"}, res=run.step(e)))
            return evs, done
        finally:
            run.d.close()

    evs, ops = once(None, 0)
    add(out, seen, evs)
    at = set(range(1, len(ops) + 1))
    full = len(at) <= 120
    if not full:
        rng = random.Random(job["seed"])
        at = set(range(1, 41)) | set(range(len(ops) - 39, len(ops) + 1)) | set(rng.sample(sorted(at), 40))
    for i, o in enumerate(ops, 1):
        if i not in at:
            continue
        plan = [("kill", 0)]
        if o != "stat":
            plan += [("err", 5), ("err", 28), ("err", 4)]
        if o == "open":
            plan += [("err", 13)]
        if o == "write":
            plan += [("short", 0, cut) for cut in range(4)]
            plan += [("shortfull", 28, 0), ("shortfull", 5, 1), ("shortfull", 27, 2), ("shortfull", 122, 3)]
        for fault in plan:
            add(out, seen, once(fault[0], i, *fault[1:])[0])
            n += 1
    return out, n, full


_ctx = {}


def _init(bins, base, so):
    cli._worker_init(bins, base)
    _ctx.update(bins=bins, base=base, so=so)


def _work(job):
    try:
        return (explore if "cmds" in job else faulted)(job)
    except OSError as x:
        return str(x), 0, False


def run_jobs(c, jobs, name):
    bins = cli.binaries(c)
    so = build_shim(c, bins)
    base = os.path.join(c.scratch, "w-" + name)
    os.makedirs(base, exist_ok=True)
    os.chmod(base, 0o777)
    rng = random.Random(SEED)
    for i, j in enumerate(jobs):
        j["seed"] = SEED * 7919 + i
        j.setdefault("dir", "work")
    trace = os.path.join(c.scratch, name + ".ndjson")
    total = capped = k = 0
    with multiprocessing.Pool(CORES, _init, (bins, base, so)) as pool, open(trace, "w") as f:
        for job, (sessions, n, full) in zip(jobs, pool.imap(_work, jobs)):
            if isinstance(sessions, str):
                raise ToolError("scheduler: " + sessions)
            total += n
            capped += not full
            for evs in sessions:
                k += 1
                f.write(json.dumps({"id": "%s#%d" % (job["id"], k), "ev": evs, "ids": [str(x) for x in job["ids"]]}) + "\n")
    log("  %s: %d jobs, %d runs, %d distinct outcomes, %d not exhausted" % (name, len(jobs), total, k, capped))
    c.extra.update({name + "_runs": total, name + "_jobs": len(jobs), name + "_jobs_not_exhausted": capped})
    c.validate("TraceCli", trace)


# ------------------------------------------------------------------ jobs
def vadd(*vs):
    return {"op": "add", "opts": [["vertex", list(vs)]], "rev": False}


def eadd(*vs):
    return {"op": "add", "opts": [["edge", list(vs)]], "rev": False}


def vdel(*vs):
    return {"op": "del", "opts": [["vertex", list(vs)]]}


def edel(*vs):
    return {"op": "del", "opts": [["edge", list(vs)]]}


def c05(c):
    c.model("CommandLog")
    c.flawed("CommandLog", "CommandLog_touchlock.cfg", "CommandLog_nolock.cfg")
    rng = cc.rng_for("c05")
    ids6 = [0, 1, 7, 2 ** 32, 2 ** 63, 2 ** 64 - 1]
    put = {"op": "put", "cs": [[0, 5], [1, 1, 2], [1, 2, 3], [1, 4, 4], [2, 4]]}
    dump, desc, topo = {"op": "dump"}, {"op": "desc"}, {"op": "topo"}
    sp = {"op": "sp", "s": 1, "t": 3}
    build, init = {"op": "build"}, {"op": "init"}
    clean = {"op": "clean", "conf": "force"}
    rand = {"op": "rand", "n": 0, "m": 0, "_m": True, "conf": "force"}
    mods = [vadd(4), eadd(3, 1, 3, 4), vdel(2), edel(1, 2), build, clean, rand]
    readers = [dump, desc, topo]
    post = [{"op": "lockis"}, init, vadd(6), dump, {"op": "lockis"}]
    cap = cc.amount(500, 6000)
    jobs = []

    def job(cmds, pre=None, **kw):
        jobs.append(dict({"id": "+".join(x["op"] for x in cmds), "ids": ids6, "pre": pre or [put], "cmds": cmds, "post": post,
                          "cap": cap}, **kw))

    for i, a in enumerate(mods):
        for b in mods[i:]:
            job([a, b])
        for r in readers:
            job([a, r])
        job([a, init])
    for a in (vadd(4), vdel(2), build):
        job([a, sp] if a["op"] != "del" else [a, dump])
    job([init, init], pre=[{"op": "lockis"}])
    job([init, vadd(1)], pre=[{"op": "lockis"}])
    job([init, build], pre=[{"op": "lockis"}])
    job([init, dump], pre=[{"op": "lockis"}])
    job([init, init, vadd(1)], pre=[{"op": "lockis"}])
    job([init, vadd(1), vadd(2)], pre=[{"op": "lockis"}])
    job([init, init, vadd(1), build], pre=[{"op": "lockis"}], cap=cc.amount(250, 4000))
    # three at once
    trios = [[vadd(4), eadd(3, 1), dump], [vadd(4), edel(1, 2), build], [build, vadd(4), dump], [clean, vadd(4), dump],
             [rand, vadd(4), dump], [vadd(4), vadd(6), vdel(2)], [build, build, vadd(4)], [clean, init, vadd(4)],
             [clean, clean, build], [rand, clean, desc], [dump, desc, eadd(3, 1)], [build, dump, desc]]
    for t in trios:
        job(t, cap=cc.amount(250, 4000))
    for k in range(cc.amount(4, 60)):
        job([rng.choice(mods + readers) for _ in range(rng.choice([3, 4]))], cap=cc.amount(60, 300), random=100)
    # large logs: readers and writers need several operations
    n = 700
    big = {"op": "put", "cs": [[0, v] for v in range(1, n + 1)]}
    ids = cc.big_ids(n + 400)
    for t in ([vadd(*range(n + 1, n + 400)), dump], [build, dump], [build, vadd(*range(n + 1, n + 400))],
              [vadd(n + 1), vdel(*range(1, 500)), dump], [clean, dump], [rand, desc]):
        jobs.append({"id": "big", "ids": ids, "pre": [big], "cmds": t, "post": [{"op": "lockis"}, dump],
                     "cap": cc.amount(30, 500), "random": cc.amount(20, 200)})
    run_jobs(c, jobs, "interleavings")
    # a lock held by somebody else
    gen = os.path.join(c.scratch, "behaviours.txt")
    c.model("GenCli", env={"GEN_OUT": gen}, workers=1)
    sessions = []
    for line in open(gen):
        steps = json.loads(json.loads(line))
        if any(e["op"] == "spoil" for e in steps):
            continue  # C24
        if steps[-1]["op"] in ("add", "del", "build", "clean") and {"op": "lock"} in steps:
            if rng.random() < cc.amount(0.4, 1):
                sessions.append({"id": "held", "ids": cli.pick_ids(rng, 2), "steps": steps + [
                    {"op": "lockis"}, {"op": "dump"}, {"op": "unlock"}, {"op": "init"}, {"op": "dump"}]})
    f1 = {"op": "files", "same": True}
    for k in range(cc.amount(150, 1500)):
        n = 5
        cs, m = rand_cmds(rng, n, rng.randint(1, 10))
        e = rng.choice([cc.rnd_add(rng, n), cc.rnd_del(rng, n), build, clean, dict(clean, conf="yes"),
                        dict(rand, n=rng.randint(0, 9), m=3), dict(rand, n=5, m=3, conf="y")])
        sessions.append({"id": "heldf", "ids": list(range(0, 15)), "steps": [
            {"op": "put", "cs": cs}, {"op": "lock"}, {"op": "files", "same": False}, e, f1, {"op": "lockis"}, dump, desc,
            {"op": "unlock"}, cc.rnd_add(rng, n), dump, {"op": "lockis"}]})
    cc.judge(c, sessions, name="held", bins=os.path.join(c.scratch, "bin"))


def c06(c):
    c.model("CommandLog", "CommandFaults.cfg")
    c.flawed("CommandLog", "CommandFaults_truncate.cfg", "CommandFaults_noback.cfg")
    rng = cc.rng_for("c06")
    jobs = []

    def job(cmd, put, ids, post):
        jobs.append({"id": "fault-" + cmd["op"], "ids": ids, "pre": [put], "cmd": cmd, "post": post})

    dump, build = {"op": "dump"}, {"op": "build"}
    for k in range(cc.amount(60, 600)):
        n = rng.randint(2, 6)
        ids = cli.pick_ids(rng, n + 1)
        cs, m = rand_cmds(rng, n, rng.randint(0, 10))
        cmd = rng.choice([cc.rnd_add(rng, n), cc.rnd_del(rng, n), build])
        post = [vadd(n + 1), dump, build, dump] if k % 2 else [build, dump, vdel(1), dump]
        job(cmd, {"op": "put", "cs": cs}, ids, post + [{"op": "lockis"}])
    # more than one buffer
    for n in cc.amount([350, 420], [350, 420, 500, 700, 1000]):
        ids = cc.big_ids(n + 1)
        vs = list(range(1, n + 1))
        allv = {"op": "put", "cs": [[0, v] for v in vs]}
        half = {"op": "put", "cs": [[0, v] for v in vs[::2]]}
        es = [x for i in range(1, n // 2) for x in (i, n - i)]
        post = [vadd(n + 1), dump, build, dump]
        job(vadd(*vs), {"op": "put", "cs": []}, ids, post)
        job(eadd(*es), half, ids, post)
        job({"op": "add", "opts": [["vertex", vs], ["chain", vs[::3]], ["star", vs[:50]]], "rev": True}, half, ids, post)
        job(vdel(*vs[5:]), allv, ids, post)
        job(build, allv, ids, post)
        job(build, {"op": "put", "cs": [[0, v] for v in vs] + [[1, v, n + 1 - v] for v in vs] + [[2, v] for v in vs[:9]]}, ids, post)
    run_jobs(c, jobs, "faults")
