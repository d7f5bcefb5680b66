"""Sessions of the gc-* tools, per property.  The generators only choose what to run; every
judgement is made by the specification (TraceCli)."""
import heapq, json, multiprocessing, os, random, shutil, subprocess
import cli
import vlib
from cli import graphs, pick_ids, rand_cmds
from vlib import SEED, THOROUGH, ToolError

DIRS = ["work", "a b", "w.graph", "\u00e9t\u00e9", "x-1", ".hidden"]


def amount(q, t):
    """the base amount of the quick or thorough tier; integers are scaled per check"""
    x = t if THOROUGH else q
    return x * vlib.SCALE if isinstance(x, int) else x


def rng_for(name):
    return random.Random("%s-%d" % (name, SEED))


def judge(c, sessions, name="cli", helpers=("dump",), bins=None):
    bins = bins or cli.binaries(c, helpers)
    trace = cli.run_sessions(c, bins, sessions, name)
    c.extra["tool_sessions"] = c.extra.get("tool_sessions", 0) + len(sessions)
    c.validate("TraceCli", trace)
    return bins


# ------------------------------------------------------------------ modifying commands
def rnd_add(rng, n, big=False):
    opts = []
    for k in rng.sample(["vertex", "edge", "chain", "cycle", "star", "clique"], rng.choice([1, 1, 1, 2, 3])):
        if k == "vertex":
            vs = [rng.randint(1, n) for _ in range(rng.randint(1, 4))]
        elif k == "edge":
            vs = [rng.randint(1, n) for _ in range(2 * rng.randint(1, 3))]
        elif k == "clique":
            vs = rng.sample(range(1, n + 1), rng.randint(2, min(rng.choice([4, 12]), n)))
        else:
            vs = [rng.randint(1, n) for _ in range(rng.randint(2, 5))]
        opts.append([k, vs])
    return {"op": "add", "opts": opts, "rev": rng.random() < 0.3}


def rnd_del(rng, n):
    opts = []
    for k in rng.sample(["vertex", "edge"], rng.choice([1, 1, 2])):
        vs = [rng.randint(1, n) for _ in range(rng.randint(1, 3) if k == "vertex" else 2 * rng.randint(1, 2))]
        opts.append([k, vs])
    return {"op": "del", "opts": opts}


def via_lib(rng, e):
    """the same command through the library, where it has a function for it"""
    e = dict(e)
    if e["op"] == "init":
        e.update(_via="lib", _fn="init", _ids=[])
    elif e["op"] == "clean" and e["conf"] == "force":
        e.update(_via="lib", _fn="clean", _ids=[])
    elif e["op"] == "build":
        e.update(_via="lib", _fn="save", _ids=[])
    elif e["op"] == "add" and len(e["opts"]) == 1 and not e["rev"] and e["opts"][0][0] in ("vertex", "edge"):
        k, vs = e["opts"][0]
        fn = {("vertex", 1): "add_vertex", ("edge", 2): "add_edge"}.get((k, len(vs)))
        if not fn or rng.random() < 0.4:
            fn = "add_vertices" if k == "vertex" else "add_edges"
        e.update(_via="lib", _fn=fn, _ids=vs)
    elif e["op"] == "del" and len(e["opts"]) == 1:
        k, vs = e["opts"][0]
        fn = "remove_vertex" if k == "vertex" and len(vs) == 1 and rng.random() < 0.6 else \
            ("remove_vertices" if k == "vertex" else "remove_edges")
        e.update(_via="lib", _fn=fn, _ids=vs)
    return e


def obs(rng, n, few=True):
    r = [{"op": "dump"}]
    x = rng.random()
    if x < 0.3 or not few:
        r.append({"op": "desc"})
    if x > 0.85:
        r.append({"op": "topo"})
    if 0.4 < x < 0.45:
        r.append({"op": "lockis"})
    return r


def big_ids(n):
    return list(range(2 ** 64 - n, 2 ** 64))


def c02(c):
    c.model("CommandLog")
    rng = rng_for("c02")
    gen = os.path.join(c.scratch, "behaviours.txt")
    c.model("GenCli", env={"GEN_OUT": gen}, workers=1)
    sessions = []
    for line in open(gen):
        steps = json.loads(json.loads(line))
        if steps[-1]["op"] in ("lock", "unlock") or any(e["op"] == "spoil" for e in steps):
            continue
        ids = pick_ids(rng, 2)
        sessions.append({"id": "gen", "ids": ids, "dir": rng.choice(DIRS),
                         "steps": steps + [{"op": "dump"}, {"op": "desc"}, {"op": "lockis"}]})
    c.extra["behaviours_generated"] = len(sessions)
    for k in range(amount(300, 4000)):
        n = rng.randint(2, rng.choice([6, 6, 6, 14]))
        steps = [] if rng.random() < 0.2 else [{"op": "init"}]
        for _ in range(rng.randint(4, 18)):
            x = rng.random()
            if x < 0.05:
                e = [{"op": "init"}]
            elif x < 0.08:
                e = [{"op": "clean", "conf": rng.choice(["force", "yes", "y", "no", "", "maybe"])}]
            elif x < 0.14:
                e = [{"op": "build"}]
            elif x < 0.17:
                e = [{"op": "lock"}, rnd_add(rng, n), {"op": "dump"}, {"op": "unlock"}]
            elif x < 0.68:
                e = [rnd_add(rng, n)]
            else:
                e = [rnd_del(rng, n)]
            if k % 4 == 0:
                e = [via_lib(rng, y) for y in e]
            steps += e + obs(rng, n)
        sessions.append({"id": "hist", "ids": pick_ids(rng, n), "dir": rng.choice(DIRS), "steps": steps})
    # every function of the library that changes the stored graph
    for k in range(amount(60, 600)):
        n = rng.randint(2, 4)
        r = lambda j: [rng.randint(1, n) for _ in range(j)]
        steps = [via_lib(rng, {"op": "init"})]
        for _ in range(rng.randint(4, 12)):
            e = rng.choice([{"op": "add", "opts": [["vertex", r(1)]], "rev": False},
                            {"op": "add", "opts": [["vertex", r(3)]], "rev": False},
                            {"op": "add", "opts": [["edge", r(2)]], "rev": False},
                            {"op": "add", "opts": [["edge", r(2)]], "rev": False},
                            {"op": "add", "opts": [["edge", r(6)]], "rev": False},
                            {"op": "del", "opts": [["vertex", r(1)]]}, {"op": "del", "opts": [["vertex", r(2)]]},
                            {"op": "del", "opts": [["edge", r(2)]]}, {"op": "del", "opts": [["edge", r(4)]]},
                            {"op": "build"}])
            steps += [via_lib(rng, e), {"op": "dump"}]
        sessions.append({"id": "lib", "ids": pick_ids(rng, n), "dir": rng.choice(DIRS),
                         "steps": steps + [{"op": "desc"}, {"op": "lockis"}]})
    # no directory at all
    for k in range(12):
        tools = [rnd_add(rng, 3), rnd_del(rng, 3), {"op": "build"}, {"op": "clean", "conf": "force"}, {"op": "desc"},
                 {"op": "topo"}, {"op": "sp", "s": 1, "t": 2}, {"op": "csp", "s": 1, "t": 2, "opts": []},
                 {"op": "cyc", "act": "all", "n": 0, "opts": []}, {"op": "cyc", "act": "girth", "n": 0, "opts": []}]
        rng.shuffle(tools)
        s = {"id": "nodir", "ids": pick_ids(rng, 3), "dir": "work", "where": rng.choice(["abs", "rel", "slash", "last"]),
             "steps": tools + [{"op": "init"}, {"op": "dump"}, rnd_add(rng, 3), {"op": "dump"}, {"op": "desc"}]}
        if k % 2:
            s["nodir"] = True
        sessions.append(s)
    # options that stand for more than a thousand commands
    for n in (33, 40, 46) if THOROUGH else (34, 40):
        vs = list(range(1, n + 1))
        sessions.append({"id": "big", "ids": list(range(9 - n % 3, 9 - n % 3 + n)), "dir": "work", "steps": [
            {"op": "init"}, {"op": "add", "opts": [["clique", vs]], "rev": False}, {"op": "dump"}, {"op": "desc"},
            {"op": "del", "opts": [["edge", [x for a in vs for b in vs if a < b for x in (a, b)]]]}, {"op": "dump"}, {"op": "build"},
            {"op": "dump"}]})
    n = 1100
    sessions.append({"id": "big", "ids": big_ids(n), "dir": "work", "steps": [
        {"op": "init"}, {"op": "add", "opts": [[rng.choice(["cycle", "star", "chain"]), list(range(1, n + 1))]], "rev": rng.random() < 0.5},
        {"op": "dump"}, {"op": "desc"}]})
    # thousands of commands at once, through the tools and the library
    n = 5000
    for lib in (False, True):
        via = (lambda e: via_lib(rng, e)) if lib else (lambda e: e)
        sessions.append({"id": "big", "ids": big_ids(n), "dir": "work", "steps": [
            {"op": "init"}, via({"op": "add", "opts": [["vertex", list(range(1, n + 1))]], "rev": False}), {"op": "dump"},
            via({"op": "del", "opts": [["vertex", list(range(3, n, 1))]]}), {"op": "dump"}, {"op": "desc"}]})
        sessions.append({"id": "big", "ids": big_ids(n), "dir": "work", "steps": [
            {"op": "init"}, via({"op": "add", "opts": [["edge", [x for i in range(1, n) for x in (i, i + 1)]]], "rev": False}), {"op": "dump"},
            via({"op": "del", "opts": [["edge", [x for i in range(1, n) for x in (i, i + 1)]]]}), {"op": "dump"}, {"op": "desc"}]})
    # long argument lists
    for n in (500, 1000) if THOROUGH else (300, 250):
        sessions.append({"id": "big", "ids": big_ids(n), "dir": "work", "steps": [
            {"op": "init"}, {"op": "add", "opts": [["vertex", list(range(1, n + 1))]], "rev": False}, {"op": "dump"},
            {"op": "add", "opts": [["chain", list(range(1, n + 1, 2))]], "rev": True}, {"op": "dump"}, {"op": "desc"},
            {"op": "del", "opts": [["vertex", list(range(2, n, 2))]]}, {"op": "dump"},
            {"op": "del", "opts": [["edge", [x for i in range(1, n - 4, 4) for x in (i + 2, i)]]]},
            {"op": "dump"}, {"op": "build"}, {"op": "dump"}, {"op": "desc"}]})
    judge(c, sessions, helpers=("dump", "apply"))


def c03(c, bins=None):
    """compaction"""
    rng = rng_for("c03")
    sessions = []
    for ids, cs, m in graphs(rng, amount(200, None), amount(200, 2500)):
        n = len(ids)
        steps = [{"op": "put", "cs": cs}] + ([{"op": "dump"}] if rng.random() < 0.5 else [])
        for _ in range(rng.randint(1, 3)):
            steps += [{"op": "build"}]
        steps += [{"op": "dump"}]
        if n > 1:
            for _ in range(rng.randint(0, 4)):
                e = rng.choice([rnd_add(rng, n), rnd_del(rng, n), {"op": "build"}])
                if rng.random() < 0.3:
                    e = via_lib(rng, e)
                steps += [e] + ([{"op": "dump"}] if rng.random() < 0.7 else [])
            steps += [{"op": "build"}, {"op": "dump"}, {"op": "desc"}]
        sessions.append({"id": "build", "ids": ids, "dir": rng.choice(DIRS), "steps": steps, "noisy": True})
    for n in amount([60, 250, 400], [60, 250, 400, 800, 1500]):
        vs = list(range(1, n + 1))
        cs = [[0, v] for v in vs] + [[1, rng.choice(vs), rng.choice(vs)] for _ in range(n // 2)]
        rng.shuffle(cs)
        sessions.append({"id": "big", "ids": big_ids(n), "noisy": True, "steps": [
            {"op": "put", "cs": cs}, {"op": "build"}, {"op": "dump"}, {"op": "build"}, {"op": "dump"},
            {"op": "del", "opts": [["vertex", rng.sample(vs, 20)]]}, {"op": "build"}, {"op": "dump"}]})
    return judge(c, sessions, helpers=("dump", "apply"), bins=bins)


# ------------------------------------------------------------------ queries
def per_graph(name, small, random_, queries, nmax=6, loops=True, sizes=(), rings=None):
    def f(c, bins=None):
        rng = rng_for(name)
        sessions = []
        gs = graphs(rng, small() if callable(small) else small, random_(), nmax, loops) + cli.shapes(rng, sizes)
        if rings:
            gs += cli.rings(rng, rings())
        for ids, cs, m in gs:
            q = queries(rng, ids, m)
            if q:
                sessions.append({"id": name, "ids": ids, "dir": rng.choice(DIRS), "steps": [{"op": "put", "cs": cs}] + q})
        return judge(c, sessions, name=name, bins=bins)
    return f


c07 = per_graph("c07", None, lambda: amount(250, 4000), lambda rng, ids, m: [{"op": "topo"}], nmax=8, sizes=(70, 150, 260))

ACTS = ["all", "head", "take-n", "count", "girth", "shortest", "longest", "hamiltonian"]


def cyc_plain(rng, ids, m):
    acts = ACTS if 3 < len(m.V) < 20 else rng.sample(ACTS, 3)
    if len(m.V) > 20 and len(m.E) > len(m.V) + 6:
        return []
    return [{"op": "cyc", "act": a, "n": rng.choice([0, 1, 2, 3, 5, 50]), "opts": []} for a in acts]


c08 = per_graph("c08", None, lambda: amount(150, 2500), cyc_plain, nmax=5, sizes=(40, 70), rings=lambda: amount(40, 400))


def cyc_opts(rng, m, n):
    vs = lambda k: [rng.choice(sorted(m.V) if m.V and rng.random() < 0.85 else list(range(1, n + 1))) for _ in range(k)]

    def es(k):
        r = []
        for _ in range(k):
            r += list(rng.choice(sorted(m.E))) if m.E and rng.random() < 0.85 else vs(2)
        return r
    names = ["min-length", "max-length", "exact-length", "min-score", "max-score", "exact-score", "include-all",
             "exclude-all", "include-all-edges", "exclude-all-edges"]
    opts = []
    for k in rng.sample(names, rng.choice([1, 1, 1, 2, 2, 3])):
        if k in cli.NUMERIC:
            opts.append([k, [rng.randint(0, n + 1)]])
        elif k.endswith("edges"):
            opts.append([k, es(rng.choice([1, 1, 2, 3]))])
        else:
            opts.append([k, vs(rng.choice([1, 1, 2, 3]))])
    return opts


def all_enumerable(m):
    """finding K2 (decided under C08/C09) cannot show on this graph"""
    return all(any(b == v for _, b in m.E) for v in m.V)


def cyc_constrained(rng, ids, m):
    if not m.E:
        return []
    return [{"op": "cyc", "act": rng.choice(["all", "all", "count", "head", "take-n", "shortest", "longest"]),
             "n": rng.choice([0, 1, 2, 3, 50]), "opts": cyc_opts(rng, m, len(ids))} for _ in range(6)]


c09 = per_graph("c09", lambda: amount(250, None), lambda: amount(500, 5000), cyc_constrained, nmax=5, rings=lambda: amount(100, 1000))


def sp_pairs(rng, ids, m):
    vs = sorted(m.V)
    pairs = [(a, b) for a in vs for b in vs]
    if len(pairs) > 9:
        pairs = rng.sample(pairs, 9 if len(vs) < 20 else 3)
    if len(vs) > 20:
        starts = [v for v in vs if all(b != v for _, b in m.E)] or vs
        ends = [v for v in vs if all(a != v for a, _ in m.E)] or vs
        pairs[0] = (rng.choice(starts), rng.choice(ends))
    return [{"op": "sp", "s": a, "t": b} for a, b in pairs]


c10 = per_graph("c10", lambda: amount(250, None), lambda: amount(300, 4000), sp_pairs, nmax=8, sizes=(70, 130))


def csp_holds(opts, p):
    for k, v in opts:
        if k == "include" and not set(v) <= set(p):
            return False
        if k == "exclude" and set(v) & set(p):
            return False
        if k == "ordered":
            ix = [v.index(x) for x in p if x in v]
            if ix != sorted(ix):
                return False
        if k == "include-cycle" and len(set(p)) == len(p):
            return False
        if k == "no-cycle" and len(set(p)) != len(p):
            return False
        if k in ("min-length", "exact-length") and len(p) < v[0]:
            return False
        if k in ("max-length", "exact-length") and len(p) > v[0]:
            return False
        if k in ("min-score", "exact-score") and len(p) - 1 < v[0]:
            return False
        if k in ("max-score", "exact-score") and len(p) - 1 > v[0]:
            return False
    return True


BOUNDING = {"max-length", "exact-length", "max-score", "exact-score", "no-cycle"}


def feasible(m, s, t, opts, left=3000):
    """is the query small enough to be run? (walks by length)"""
    bound = [o for o in opts if o[0] in ("max-length", "exact-length", "max-score", "exact-score", "no-cycle", "exclude")]
    q = [[s]]
    while q and left > 0:
        nq = []
        for p in q:
            left -= 1
            if p[-1] == t and csp_holds(opts, p):
                return True
            for a, b in m.E:
                if a == p[-1]:
                    np = p + [b]
                    ok = True
                    for k, v in bound:
                        if k in ("max-length", "exact-length") and len(np) > v[0]:
                            ok = False
                        if k in ("max-score", "exact-score") and len(np) - 1 > v[0]:
                            ok = False
                        if k == "no-cycle" and b in p:
                            ok = False
                    if ok:
                        nq.append(np)
        q = nq
        if len(q) > left:
            return False
    return left > 0


def csp_opts(rng, m, n):
    vs = sorted(m.V)
    pick = lambda k: [rng.choice(vs) if rng.random() < 0.9 else rng.randint(1, n) for _ in range(k)]
    names = ["include", "exclude", "ordered", "include-cycle", "no-cycle", "min-length", "max-length", "exact-length",
             "min-score", "max-score", "exact-score"]
    opts = []
    for k in rng.sample(names, rng.choice([0, 1, 1, 2, 2, 3])):
        if k in cli.NUMERIC:
            opts.append([k, [rng.randint(0, 6 if n < 8 or rng.random() < 0.3 else 2 * n)]])
        elif k in ("include-cycle", "no-cycle"):
            opts.append([k, []])
        elif k == "ordered":
            if n < 2:
                continue
            opts.append([k, rng.sample(range(1, n + 1), rng.randint(2, min(3 if n < 8 else 5, n)))])
        else:
            opts.append([k, pick(rng.choice([1, 1, 2]))])
    return opts


def csp_queries(rng, ids, m):
    vs, res = sorted(m.V), []
    if not vs:
        return []
    for _ in range(30):
        if len(res) >= 5:
            break
        s, t = rng.choice(vs), rng.choice(vs)
        opts = csp_opts(rng, m, len(ids))
        if feasible(m, s, t, opts):
            res.append({"op": "csp", "s": s, "t": t, "opts": opts})
    return res


c11 = per_graph("c11", lambda: amount(200, None), lambda: amount(400, 4000), csp_queries, nmax=5, sizes=(20, 70),
                rings=lambda: amount(100, 1000))


# ------------------------------------------------------------------ gc-random
def rand_sessions(rng, count):
    sizes = list(range(0, 13)) + [19, 20, 21, 29, 30, 31, 40, 50, 60, 100, 101, 130, 257]
    sessions = []
    for i in range(count):
        n = sizes[i % len(sizes)] if i < 3 * len(sizes) else rng.randint(0, 60)
        gap = n // 10
        span = max(0, n - gap - 1)
        fit = span * (span + 1) // 2
        m = rng.choice([0, 1, n, 2 * n, fit - 1, fit, fit + 1, 10 ** 6, None, None])
        if m is not None and n > 30 and m > 5 * n:
            m = 5 * n  # the tool is slow on nearly complete graphs
        e = {"op": "rand", "n": n, "m": 3 * n if m is None else max(0, m), "_m": m is not None,
             "conf": rng.choice(["force", "force", "yes", "y"])}
        if n == 100 and rng.random() < 0.5:
            e["_n"] = False
        k = rng.randint(1, 6)
        pre = rng.choice([[{"op": "init"}], [{"op": "put", "cs": rand_cmds(rng, 5, k)[0]}],
                          [{"op": "put", "cs": rand_cmds(rng, 5, 3 * k)[0]}]])
        steps = list(pre) + [e, {"op": "dump"}, {"op": "desc"}, {"op": "topo"}, {"op": "lockis"}]
        r = rng.random()
        if r < 0.1:
            steps = pre + [{"op": "lock"}, e, {"op": "dump"}, {"op": "lockis"}, {"op": "unlock"}, dict(e), {"op": "dump"}]
        elif r < 0.17:
            steps = [dict(e), {"op": "dump"}, {"op": "init"}, dict(e), {"op": "dump"}]
        elif r < 0.25:
            steps = pre + [dict(e, conf="no"), {"op": "dump"}, dict(e, conf=""), {"op": "dump"}]
        sessions.append({"id": "rand", "ids": list(range(0, max(n, 5) + 3)), "dir": rng.choice(DIRS), "steps": steps})
    return sessions


def c19(c):
    c.model("RandomDag")
    c.flawed("RandomDag", "RandomDag_uncapped.cfg")
    rng = rng_for("c19")
    big = [{"id": "randbig", "ids": list(range(0, n + 3)), "dir": "work", "steps": [
        {"op": "init"}, {"op": "rand", "n": n, "m": m, "_m": True, "conf": "force"}, {"op": "dump"}, {"op": "desc"}]}
        for n, m in amount([(128, 400), (256, 300), (300, 299), (513, 600), (1001, 1000), (150, 2000), (1203, 9000), (2050, 2000)],
                           [(128, 4000), (256, 3000), (300, 299), (513, 3000), (1001, 5000), (150, 8000), (2000, 20000), (4100, 4100), (6001, 12000)])]
    judge(c, rand_sessions(rng, amount(220, 2000)) + big)


# ------------------------------------------------------------------ confirmation and containment
ANSWERS = [("yes", "yes\n"), ("y", "y\n"), ("yes", "yes"), ("y", "  y  \r\n"), ("yes", "\tyes\nno\n"),
           ("no", "no\n"), ("n", "n\n"), ("", "\n"), ("", ""), ("no", "no\nyes\n"), ("", "\nyes\n"), ("Yes", "Yes\n"),
           ("YES", "YES\n"), ("Y", "Y\n"), ("yes please", "yes please\n"), ("yess", "yess\n"), ("ye", "ye\n"),
           ("yy", "yy\n"), ("y e s", "y e s\n"), ("oui", "oui\n"), ("maybe", "maybe\n"), ("true", "true\n"),
           ("1", "1\n"), ("ok", "ok\n"), ("nyes", "nyes\n"), ("noyes", "noyes\n"), ("not y", "not y\n"),
           ("anyway", "anyway\n"), ("?", "?\n"), ("-y", "-y\n"), ("y!", "y!\n"), ("garbage", "\xff\xfe\n"),
           ("0", "0\n"), ("N", "N\n"), ("yesno", "yesno\n"), ("quit", "quit\n"), ("y\u0435s", "y\u0435s\n"), ("si", "si\n"),
           ("yes" * 60, "yes" * 60 + "\n"), ("no" + " " * 5000 + "yes", "no" + " " * 5000 + "yes\n"),
           ("yes", " " * 5000 + "yes\n"), ("y", "y\nno\nno\n")]
# only the first line is the answer
ANSWERS += [(a, a + "\n" + b) for a in ("no", "n", "", "maybe", "Yes", "ye", "?", "yes no", "x")
            for b in ("yes\n", "y\ny\ny\n", "yes\nyes\n")]


def c20(c):
    rng = rng_for("c20")
    sessions = []
    f0, f1 = {"op": "files", "same": False}, {"op": "files", "same": True}
    yes = {"yes", "y"}
    combos = [(a, op, w) for a in ANSWERS + [("force", "")] for op in ("clean", "rand")
              for w in ("abs", "cwd", "rel", "slash", "eq", "last")]
    for rep in range(amount(1, 8)):
        for (conf, raw), op, where in combos:
            cs, m = rand_cmds(rng, 5, rng.randint(1, 10))
            e = {"op": op, "conf": conf, "_in": raw}
            if op == "rand":
                e.update(n=rng.randint(0, 12), m=rng.randint(0, 12), _m=True)
            ok = conf in yes or conf == "force"
            steps = [{"op": "put", "cs": cs, "_links": rng.random() < 0.6}, f0, e, f0 if ok else f1, {"op": "dump"},
                     {"op": "lockis"}]
            if ok and op == "clean":
                steps += [{"op": "init"}, f0, {"op": "dump"}, {"op": "desc"}]
            sessions.append({"id": "confirm", "ids": list(range(0, 15)), "dir": rng.choice(DIRS), "where": where,
                             "decoys": rng.random() < 0.7, "steps": steps})
    # a graph directory that is a link to one elsewhere: cleaning removes no more than the link
    for k in range(amount(20, 100)):
        cs, m = rand_cmds(rng, 5, rng.randint(1, 10))
        conf, raw = rng.choice(ANSWERS + [("force", "")] * 10 + [("yes", "yes\n")] * 3)
        ok = conf in yes or conf == "force"
        sessions.append({"id": "linked", "ids": list(range(0, 15)), "dir": rng.choice(DIRS), "decoys": rng.random() < 0.7, "steps": [
            {"op": "put", "cs": cs, "_symlink": True}, f0, {"op": "desc"}, f1, {"op": "clean", "conf": conf, "_in": raw},
            f0 if ok else f1, {"op": "dump"}, {"op": "lockis"}]})
    # containment: every tool, whether it succeeds or not
    for k in range(amount(250, 3000)):
        n = 5
        cs, m = rand_cmds(rng, n, rng.randint(1, 10))
        steps = [] if rng.random() < 0.2 else [{"op": "put", "cs": cs, "_links": rng.random() < 0.5}]
        steps.append(f0)
        for _ in range(rng.randint(3, 8)):
            x = rng.random()
            a, b = rng.randint(1, n), rng.randint(1, n)
            e = (rnd_add(rng, n) if x < 0.2 else rnd_del(rng, n) if x < 0.3 else {"op": "build"} if x < 0.42
                 else {"op": "init"} if x < 0.5 else {"op": "desc"} if x < 0.55 else {"op": "topo"} if x < 0.6
                 else {"op": "run", "_argv": rng.choice([
                     ["gc-cycle", "--all"], ["gc-cycle", "--hamiltonian"], ["gc-short-path", "-s", "0", "-e", "1"],
                     ["gc-csp", "-s", "0", "-e", "0", "--no-cycle"], ["gc-add"], ["gc-delete"], ["gc-build", "-v"],
                     ["gc-add", "-v", "x"], ["gc-csp", "-s", "0", "-e", "1", "--max-length", "3"]])} if x < 0.65
                 else {"op": "lock"} if x < 0.7 else {"op": "unlock"} if x < 0.78
                 else {"op": "clean", "conf": rng.choice(["force", "no", "yes"])} if x < 0.9
                 else {"op": "rand", "n": rng.randint(0, 12), "m": 5, "_m": True, "conf": rng.choice(["force", "no"])})
            steps += [e, f0]
        steps += [{"op": "dump"}]
        # ranks of ids 0..14: vertices used by commands are ranks 1..5
        sessions.append({"id": "contain", "ids": list(range(0, 15)), "dir": rng.choice(DIRS),
                         "decoys": rng.random() < 0.6, "steps": steps})
    judge(c, sessions)


# ------------------------------------------------------------------ queries only read
SPOILT = ["AddVertex x", "AddVertex", "AddEdge 1", "AddEdge 1 2 3", "RemoveVertex 1 2", "RemoveEdge 5", "Bogus", "1 2", "17",
          "AddVertex 18446744073709551616", "AddEdge 1 18446744073709551616", "AddVertex -1", "AddVertex 1.0", "\xff\xfe",
          "AddVertex \xb2", "addvertex 1", "AddVertex 1 #", "AddVertex  1x", "<<<<<<< HEAD", "=======", "\0", "AddVertex 1\0",
          "AddEdge 1,2", "AddEdge 1-2", "AddEdge(1, 2)", "AddVertex1", "AddEdge1 2", "x" * 9000, "mode", "mode", "mode"]


def c24(c):
    rng = rng_for("c24")
    gen = os.path.join(c.scratch, "behaviours.txt")
    c.model("GenCli", env={"GEN_OUT": gen}, workers=1)
    sessions = []
    f0, f1 = {"op": "files", "same": False}, {"op": "files", "same": True}

    def queries(n, k):
        a, b = rng.randint(1, n), rng.randint(1, n)
        q = [{"op": "desc"}, {"op": "topo"}, {"op": "sp", "s": a, "t": b},
             {"op": "csp", "s": a, "t": b, "opts": [["no-cycle", []]]},
             {"op": "csp", "s": b, "t": a, "opts": [["max-length", [rng.randint(1, 4)]], ["include", [a]]]}]
        q += [{"op": "cyc", "act": x, "n": 2, "opts": []} for x in rng.sample(ACTS, 3)]
        q += [{"op": "dump"}]
        rng.shuffle(q)
        return q[:k]

    def silent(qs):
        """each of them leaves everything as it was"""
        return [f0] + [x for q in qs for x in (q, f1)]

    # every state of the specification, then all queries in it
    hs = [json.loads(json.loads(x)) for x in open(gen)]
    for h in hs if THOROUGH else rng.sample(hs, min(len(hs), 350)):
        steps = [dict(e, _how=rng.choice(SPOILT)) if e["op"] == "spoil" else e for e in h]
        sessions.append({"id": "gen", "ids": pick_ids(rng, 2), "dir": rng.choice(DIRS),
                         "steps": steps + silent(queries(2, 5)) + [{"op": "lockis"}]})
    for k in range(amount(140, 1500)):
        n = rng.randint(2, 6)
        cs, m = rand_cmds(rng, n, rng.randint(1, 12), churn=rng.choice([0, 0.3]))
        steps = [{"op": "put", "cs": cs}] + silent(queries(n, 4))
        r = k % 5
        if r == 0:
            steps += [{"op": "lock"}] + silent(queries(n, 9)) + [{"op": "lockis"}, {"op": "unlock"}, {"op": "desc"}]
        elif r == 1:
            steps += [{"op": "ro"}] + silent(queries(n, 9)) + [{"op": "rw"}, {"op": "desc"}]
        else:
            steps += [{"op": "spoil", "_how": SPOILT[k // 5 % len(SPOILT)] if r == 2 else rng.choice(SPOILT)}]
            if r == 4:
                steps += [{"op": "lock"}]
            steps += silent(queries(n, 9) + [{"op": "build"}]) + [{"op": "lockis"}]
            if r == 4:
                steps += [{"op": "unlock"}]
            for _ in range(rng.randint(0, 2)):
                steps += [rng.choice([rnd_add(rng, n), rnd_del(rng, n), {"op": "init"}])] + silent(queries(n, 2) + [{"op": "build"}])
            steps += [rng.choice([{"op": "clean", "conf": "force"}, {"op": "clean", "conf": "yes"}])]
            steps += silent(queries(n, 3)) + [{"op": "init"}] + silent(queries(n, 3)) + [rnd_add(rng, n)]
            steps += silent(queries(n, 5))
        sessions.append({"id": "read", "ids": pick_ids(rng, n), "dir": rng.choice(DIRS), "steps": steps,
                         "noisy": rng.random() < 0.5, "decoys": rng.random() < 0.2})
    # long files, damaged at their beginning, in the middle or at their end
    for k in range(amount(12, 100)):
        n = rng.choice([120, 300, 1200])
        sessions.append({"id": "long", "ids": big_ids(n), "dir": "work", "steps": [
            {"op": "put", "cs": [[0, v] for v in range(1, n + 1)] + [[1, v, v + 1] for v in range(1, n, 5)]},
            {"op": "spoil", "_how": rng.choice(SPOILT[:-3])}] + silent(queries(n, 4) + [{"op": "build"}])})
    # a random graph takes the place of a damaged one
    for k in range(amount(12, 100)):
        sessions.append({"id": "anew", "ids": list(range(0, 15)), "dir": "work", "steps": [
            {"op": "put", "cs": [[0, 1], [1, 2, 3]]}, {"op": "spoil", "_how": rng.choice(SPOILT)}, {"op": "topo"},
            {"op": "rand", "n": rng.randint(0, 11), "m": 5, "_m": True, "conf": "force"}, {"op": "dump"}, {"op": "desc"},
            {"op": "build"}, {"op": "dump"}]})
    judge(c, sessions)
    # cycles the enumeration does not reach are a finding of C08 and C09; reading is not concerned
    c.known = [k for k in c.known if k.strip() != "K2"]


# ------------------------------------------------------------------ the library of the tools
def _locks(job):
    k, lines, base = job
    src, out, d = (os.path.join(base, "%s%d" % (x, k)) for x in ("in", "out", "d"))
    os.mkdir(d)
    with open(src, "w") as f:
        f.write("\n".join(lines) + "\n")
    try:
        r = subprocess.run([os.path.join(cli._ctx["bins"], "locks"), src, out, d], stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=400 if THOROUGH else 60)
        how = None if r.returncode == 0 else "died"
        err = r.stderr.decode(errors="replace")[-500:]
    except subprocess.TimeoutExpired:
        how, err = "hang", ""
    got = open(out, encoding="utf-8").read() if os.path.exists(out) else ""
    got = got[:got.rfind("\n") + 1]
    if how:  # the history the process did not come back from
        n = got.count("\n")
        got += json.dumps({"id": how, "ev": [{"op": how, "history": lines[n] if n < len(lines) else "", "stderr": err}]}) + "\n"
    return got


def c25(c):
    rng = rng_for("c25")
    gen = os.path.join(c.scratch, "behaviours.txt")
    c.model("GenLock", env={"GEN_OUT": gen}, workers=1)

    def enc(cs):
        return ";".join(",".join(map(str, x)) for x in cs)

    def token(e):
        op = e["op"]
        if op == "end":
            return "%s:%d" % (e["want"], rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 2 ** 63]))
        if op == "save":
            return "save:" + enc(e["cs"])
        if op == "cmds":
            return "cmds:%s:%s" % (e["fn"], enc(e["cs"]))
        return op

    def line(name, ids, toks):
        return "|".join([name, rng.choice(["work", "w.graph", "\u00e9t\u00e9", "a b", "x/y", "lock", ".hidden", "w/"]), rng.choice("01"),
                         ",".join(map(str, ids)), " ".join(toks)])

    lines = []
    for x in open(gen):
        h = json.loads(json.loads(x))
        n = h[-1]["op"] != "end" and sum((e["op"] == "begin") - (e["op"] == "end") for e in h) or 0
        toks = [token(e) for e in h] + [token({"op": "end", "want": rng.choice(["ok", "own"])}) for _ in range(max(n, 0))]
        lines.append(line("gen", pick_ids(rng, 2), toks))
    c.extra["behaviours_generated"] = len(lines)

    def rnd(n):
        a = lambda: rng.randint(1, n)
        x = rng.random()
        if x < 0.5:
            f = rng.choice(["add_vertex", "add_vertices", "add_edge", "add_edges", "add_edges", "remove_vertex", "remove_vertices",
                            "remove_edges"])
            m = 1 if f in ("add_vertex", "add_edge", "remove_vertex") else rng.choice([0, 1, 2, 3, 5])
            kind = {"add_v": 0, "add_e": 1, "remove_v": 2, "remove_e": 3}[f[:f.index("_") + 2]]
            return {"op": "cmds", "fn": f, "cs": [[kind, a()] + ([a()] if kind % 2 else []) for _ in range(m)]}
        if x < 0.6:
            return {"op": "save", "cs": [rng.choice([[0, a()], [1, a(), a()]]) for _ in range(rng.randint(0, 5))]}
        if x < 0.63:
            return {"op": "clean"}
        return {"op": rng.choice(["init", "lock", "unlock", "unlock", "begin", "begin", "end", "end", "end"]), "want": rng.choice(["ok", "own"])}

    for k in range(amount(700, 8000)):
        n = rng.randint(1, 7)
        toks = [rng.choice(["mkdir", "init", "init"])] if rng.random() < 0.95 else []
        depth = 0
        for _ in range(rng.randint(3, 25)):
            e = rnd(n)
            if e["op"] == "begin":
                depth += 1
            if e["op"] == "end":
                if not depth:
                    continue
                depth -= 1
            toks.append(token(e))
        toks += [token({"op": "end", "want": rng.choice(["ok", "own"])}) for _ in range(depth)]
        lines.append(line("rnd", pick_ids(rng, n), toks))
    # long lists
    for m in (100, 1000, 4500):
        ids = big_ids(m)
        cs = [[0, i] for i in range(1, m + 1)]
        es = [[1, i, i % m + 1] for i in range(1, m + 1)]
        for t in (["cmds:add_vertices:" + enc(cs), "cmds:remove_vertices:" + enc([[2, i] for i in range(1, m + 1, 2)])],
                  ["save:" + enc(es), "cmds:remove_edges:" + enc([[3] + e[1:] for e in es[::3]])],
                  ["cmds:add_edges:" + enc(es), "begin", "cmds:add_edges:" + enc(es), "save:" + enc(cs), "own:3"]):
            lines.append(line("long", ids, ["init"] + t + ["cmds:add_vertex:0,1"]))
    for k in range(amount(16, 100)):
        t, r = rng.randint(2, 6), rng.randint(20, 60)
        lines.append(line("threads", list(range(1, t * r + 1)), ["init", "cmds:add_vertex:0,1", "threads:%d:%d" % (t, r), "cmds:add_vertex:0,2",
                                                               "lock", "unlock"]))
    exe = c.build_cmdlib("locks")
    bins = os.path.join(c.scratch, "bin")
    os.makedirs(bins, exist_ok=True)
    shutil.copy2(exe, os.path.join(bins, "locks"))
    os.chmod(os.path.join(bins, "locks"), 0o755)
    base = os.path.join(c.scratch, "w-locks")
    os.makedirs(base)
    os.chmod(base, 0o777)
    rng.shuffle(lines)
    jobs = [(k, lines[k::32], base) for k in range(32)]
    trace = os.path.join(c.scratch, "locks.ndjson")
    with multiprocessing.Pool(vlib.CORES, cli._worker_init, (bins, base)) as pool, open(trace, "w", encoding="utf-8") as f:
        for t in pool.imap(_locks, jobs):
            f.write(t)
    c.validate("TraceLock", trace)


# ------------------------------------------------------------------ malformed values
BADID = ["abc", "", "1.5", "1e3", "0x1F", "18446744073709551616", "99999999999999999999999999", "\u0661", "\uff11", "1,2",
         "one", "1_000", "2a", "a2", "1-2", "NaN", "\u00b2",
         " 1", "1 ", "1 x", "1 2", "1\t", "\n1", "1;", "1.", "1.0", "0b1", "1L", "1u64", "#1", "v1", "1/1", "'1'", "\u00a01", "+", "--1",
         "18446744073709551617", "36893488147419103233", "340282366920938463463374607431768211457"]
BADNEG = ["-1", "-9223372036854775808"]
BADSCORE = ["abc", "", "1.5", "1e3", "0x1F", "9223372036854775808", "99999999999999999999", "\u0661", "one", "3a", "NaN", " 3",
            "3 ", "3 x", "3;", "3.", "3.0", "0b1", "3/1", "18446744073709551619", "- 3", "--3", "-9223372036854775809"]


def bad_count(rng, vs, good, idf):
    """well-formed values, but not as many as the option needs"""
    s = idf(rng.choice(vs))
    q = ["gc-csp", "--start", s, "--end", s]
    act = rng.choice(["--all", "--count", "--head", "--shortest", "--longest"])
    num = rng.choice(["min-length", "max-length", "exact-length", "min-score", "max-score", "exact-score"])
    return rng.choice([
        lambda: ["gc-add", "--" + rng.choice(["vertex", "edge", "chain", "cycle", "star", "clique"])],
        lambda: ["gc-add", "--" + rng.choice(["edge", "chain", "cycle", "star", "clique"]), good()],
        lambda: ["gc-add", "--" + rng.choice(["chain", "cycle", "star", "clique"]), good(), "--vertex", good()],
        lambda: ["gc-delete", "--" + rng.choice(["vertex", "edge"])],
        lambda: ["gc-delete", "--edge", good()],
        lambda: ["gc-short-path", "--start", s, good(), "--end", s],
        lambda: ["gc-short-path", "--start", s, "--end", s, good()],
        lambda: ["gc-short-path", "--start", s],
        lambda: ["gc-short-path", "--end", s],
        lambda: ["gc-csp", "--start", s],
        lambda: ["gc-csp", "--end", s],
        lambda: q + ["--" + rng.choice(["include", "exclude", "ordered", num])],
        lambda: q + ["--ordered", good()],
        lambda: q + ["--" + num, "1", "1"],
        lambda: q + ["--" + num, "1", "--" + num, "1"],
        lambda: ["gc-csp", "--start", s, s, "--end", s],
        lambda: ["gc-cycle", act, "--" + rng.choice(["include-all", "exclude-all", "include-all-edges",
                                                     "exclude-all-edges", num])],
        lambda: ["gc-cycle", act, "--" + rng.choice(["include-all-edges", "exclude-all-edges"]), good()],
        lambda: ["gc-cycle", act, "--" + num, "1", "1"],
        lambda: ["gc-cycle", "--take-n"],
        lambda: ["gc-cycle", "--take-n", "1", "1"],
    ])()


def bad_argv(rng, n, m, idf):
    """one invocation with exactly one malformed value; the rest is well-formed"""
    vs = sorted(m.V)
    good = lambda: idf(rng.randint(1, n))
    bad = rng.choice(BADID)
    neg = rng.random() < 0.15

    def opt(name, k, even=False):
        """an option with k values, one of them malformed"""
        vals = [good() for _ in range(k)]
        if neg and k == 1:
            return ["--%s=%s" % (name, rng.choice(BADNEG))]
        if even and rng.random() < 0.3:
            return ["--" + name] + vals + [good()]
        vals[rng.randrange(k)] = bad
        return ["--" + name] + vals

    def number(name, score=False):
        v = rng.choice(BADSCORE if score else BADID)
        if neg and not score:
            v = rng.choice(BADNEG)
        return ["--%s=%s" % (name, v)] if v.startswith("-") or rng.random() < 0.5 else ["--" + name, v]

    if rng.random() < 0.15:
        return bad_count(rng, vs, good, idf)
    tool = rng.choice(["add", "add", "del", "del", "sp", "csp", "csp", "csp", "cyc", "cyc", "cyc", "rand"])
    if tool == "add":
        k = rng.choice(["vertex", "edge", "chain", "cycle", "star", "clique"])
        a = opt(k, {"vertex": rng.randint(1, 4), "edge": 2 * rng.randint(1, 2)}.get(k, rng.randint(2, 4)), k == "edge")
        extra = [["--vertex", good()], ["--edge", good(), good()], ["--chain", good(), good(), good()], []]
        e = rng.choice([x for x in extra if not x or x[0] != "--" + k])
        parts = [a, e] if rng.random() < 0.5 else [e, a]
        return ["gc-add"] + parts[0] + parts[1]
    if tool == "del":
        k = rng.choice(["vertex", "edge"])
        a = opt(k, rng.randint(1, 4) if k == "vertex" else 2 * rng.randint(1, 2), k == "edge")
        e = rng.choice([[], ["--edge", good(), good()] if k == "vertex" else ["--vertex", good()]])
        parts = [a, e] if rng.random() < 0.5 else [e, a]
        return ["gc-delete"] + parts[0] + parts[1]
    # a query that has an answer if the malformed value were ignored
    s = rng.choice(vs)
    if tool == "sp":
        x = [["--start", idf(s)], ["--end", idf(s)]]
        x[rng.randrange(2)][1] = bad
        return ["gc-short-path"] + x[0] + x[1]
    if tool == "csp":
        if rng.random() < 0.2:
            x = [["--start", idf(s)], ["--end", idf(s)]]
            x[rng.randrange(2)][1] = bad
            return ["gc-csp"] + x[0] + x[1]
        k = rng.choice(["include", "exclude", "ordered", "min-length", "max-length", "exact-length", "min-score",
                        "max-score", "exact-score"])
        a = (number(k, "score" in k) if k in cli.NUMERIC
             else opt(k, rng.randint(2, 3) if k == "ordered" else rng.randint(1, 3)))
        e = rng.choice([[], ["--max-length", "3"] if k != "max-length" else [], ["--no-cycle"]])
        b = ["--start", idf(s), "--end", idf(s)]
        return ["gc-csp"] + (a + e + b if rng.random() < 0.5 else b + e + a)
    if tool == "cyc":
        act = rng.choice([["--all"], ["--count"], ["--head"], ["--shortest"], ["--longest"], ["--take-n", "2"]])
        k = rng.choice(["include-all", "exclude-all", "include-all-edges", "exclude-all-edges", "min-length",
                        "max-length", "exact-length", "min-score", "max-score", "exact-score", "take-n"])
        if k == "take-n":
            return ["gc-cycle"] + number("take-n")
        a = (number(k, "score" in k) if k in cli.NUMERIC
             else opt(k, 2 * rng.randint(1, 2), True) if k.endswith("edges") else opt(k, rng.randint(1, 3)))
        e = rng.choice([[], ["--min-length", "1"] if k != "min-length" else [], ["--max-score", "9"] if k != "max-score" else []])
        return ["gc-cycle"] + act + (a + e if rng.random() < 0.5 else e + a)
    return ["gc-random", "--force"] + number(rng.choice(["vertex-count", "edge-count"]))


def c22(c):
    rng = rng_for("c22")
    sessions = []
    for k in range(amount(500, 6000)):
        n = rng.randint(2, 5)
        ids = pick_ids(rng, n)
        cs, m = rand_cmds(rng, n, rng.randint(2, 8), churn=0)
        steps = [{"op": "put", "cs": cs}]
        for _ in range(4):
            steps += [{"op": "bad", "_argv": bad_argv(rng, n, m, lambda r: str(ids[r - 1]))}, {"op": "dump"}]
        steps += [{"op": "lockis"}]
        # and well-formed values are accepted
        if k % 4 == 0:
            vs = sorted(m.V)
            steps += [rnd_add(rng, n), rnd_del(rng, n), {"op": "dump"}]
        elif k % 4 == 1:
            vs = sorted(m.V)
            s = rng.choice(vs)
            steps += [{"op": "sp", "s": s, "t": rng.choice(vs)}] + csp_queries(rng, ids, m)[:2]
        elif k % 4 == 2 and all_enumerable(m):
            steps += [{"op": "cyc", "act": a, "n": 2, "opts": cyc_opts(rng, m, n)} for a in ("all", "take-n", "count")]
        sessions.append({"id": "bad", "ids": ids, "dir": rng.choice(DIRS), "steps": steps})
    judge(c, sessions)
