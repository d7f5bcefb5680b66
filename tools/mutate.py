#!/usr/bin/env python3
"""Mutation campaign: small syntactic changes to the source of /repo, each in a private mount namespace
(bind mounts of scratch copies over /repo and /verif), built, run against the repository's tests and,
if it survives them, against the quick checks of the properties the file belongs to.

  mutate.py list                     how many mutants there are, per file
  mutate.py run OUT.jsonl [workers] [file-substring]
Results: one JSON line per mutant: compile | tests | caught by <id> | SURVIVED.
Nothing is written to /repo or /verif."""
import json, os, random, re, shutil, subprocess, sys, time

REPO = "/repo"
MAP = {
 "core/src/directed_graph.rs": "C01 C07 C08 C03", "core/src/graph_command.rs": "C01 C02 C03",
 "core/src/format/gcmd.rs": "C04 C03 C02 C06 C05", "core/src/format/tgf.rs": "C04 C03", "core/src/format/utils.rs": "C04 C03 C06",
 "core/src/path.rs": "C12 C10 C16 C21 C17", "core/src/search/a_star.rs": "C10 C11",
 "core/src/constraint/constraint.rs": "C12 C11 C09", "core/src/constraint/checker.rs": "C13",
 "core/src/algorithm/hamiltonian.rs": "C17", "core/src/algorithm/cycle.rs": "C08", "core/src/algorithm/max_flow.rs": "C15",
 "core/src/algorithm/longest_path.rs": "C14", "core/src/algorithm/shortest_path.rs": "C14",
 "core/src/algorithm/topo_sort.rs": "C07 C14", "core/src/attribute/mapping.rs": "C18",
 "core/src/attribute/attribute_command.rs": "C18", "core/src/iter/iter_cycle.rs": "C08 C09",
 "core/src/iter/iter_breadth.rs": "C16 C17", "core/src/iter/iter_best_constraint.rs": "C11",
 "core/src/iter/iter_depth.rs": "C16 C17", "core/src/iter/iter_datastructure.rs": "C21 C16",
 "core/src/iter/iter_best.rs": "C10 C16", "command/src/arg_utils.rs": "C22 C09 C11 C02 C20",
 "command/src/graph_utils.rs": "C02 C05 C06 C20 C19", "command/src/path_formatter.rs": "C10 C11 C08",
 "command/src/bin/gc-delete.rs": "C02 C22 C05 C06", "command/src/bin/gc-topo-sort.rs": "C07 C02",
 "command/src/bin/gc-build.rs": "C03 C05 C06 C02", "command/src/bin/gc-add.rs": "C02 C22 C05 C06",
 "command/src/bin/gc-cycle.rs": "C08 C09 C22", "command/src/bin/gc-csp.rs": "C11 C22", "command/src/bin/gc-init.rs": "C02 C20",
 "command/src/bin/gc-clean.rs": "C20 C02 C05", "command/src/bin/gc-short-path.rs": "C10 C22",
 "command/src/bin/gc-desc.rs": "C02", "command/src/bin/gc-random.rs": "C19 C20 C22 C05",
}
SWAPS = [
 (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
 (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
 (r"(?<=[ (])!(?=[a-z(])", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \* ", [" + "]), (r" / ", [" * "]),
 (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]),
 (r"(?<![\w.])10(?![\w.])", ["9", "11"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
 (r"\.is_empty\(\)", [".is_empty() == false"]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
 (r"\.is_ok\(\)", [".is_err()"]), (r"\.is_err\(\)", [".is_ok()"]), (r"push_back", ["push_front"]), (r"pop_front", ["pop_back"]),
 (r"pop_back", ["pop_front"]), (r"push_front", ["push_back"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]),
 (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]), (r"\.rev\(\)", [""]), (r"\bcontinue\b", ["break"]),
 (r"\bbreak;", ["continue;", ""]), (r"\binbound_edges", ["outbound_edges"]), (r"\boutbound_edges", ["inbound_edges"]),
 (r"Edge\((\w+), (\w+)\)", [r"Edge(\2, \1)"]), (r"\bEdge\(\*(\w+), \*(\w+)\)", [r"Edge(*\2, *\1)"]), (r"\bMin(?=Length|Score)", ["Max"]),
 (r"\bMax(?=Length|Score)", ["Min"]), (r"\b(min)_", ["max_"]), (r"\b(max)_", ["min_"]), (r"u64", ["u32"]), (r"i64", ["i32"]),
 (r"u64::MAX", ["u64::MAX / 2"]), (r"i64::MAX", ["0"]), (r"\.saturating_add", [".wrapping_add"]), (r"\.filter\(.*\)$", [""]),
 (r"\.skip\(\d+\)", [""]), (r"\.windows\(2\)", [".chunks(2)"]), (r"\.chunks\(2\)", [".windows(2)"]), (r"Some\(\w+\)", ["None"]),
 (r"\?;", [".ok();"]), (r"\.dedup\(\)", [""]), (r"\.trim\(\)", [""]), (r"\^", ["||"]), (r"\.rename\(", [".copy("]), (r"truncate\(true\)", ["truncate(false)"]),
 (r"append\(true\)", ["append(false)"]), (r"create_new\(true\)", ["create(true)"]), (r"\+\$|\$\"", ['"']), (r"r\"\^", ['r"']), (r"\\d\+", [r"\\d*"]), (r"\\s\+", [r"\\s*"]), (r"\\s\*", [""]),
]


def source_lines(path):
    lines = open(path).read().split("\n")
    end = len(lines)
    for i, l in enumerate(lines):
        if l.strip() == "#[cfg(test)]":
            end = i
            break
    return lines, end


def mutants():
    out = []
    for f in sorted(MAP):
        lines, end = source_lines(os.path.join(REPO, f))
        for i in range(end):
            l = lines[i]
            s = l.strip()
            if not s or s.startswith("//") or s.startswith("use ") or s.startswith(".help(") or s.startswith("#["):
                continue
            seen = {l}
            for pat, reps in SWAPS:
                for m in re.finditer(pat, l):
                    for r in reps:
                        new = l[:m.start()] + m.expand(r.replace("\\\\", "\\\\\\\\") if "\\\\" in r else r) + l[m.end():]
                        if new not in seen:
                            seen.add(new)
                            out.append((f, i, new))
            if s.endswith(";") and not s.startswith("let ") and not s.startswith("return") and not s.startswith("pub ") and not s.startswith("type "):
                out.append((f, i, "    " * ((len(l) - len(s)) // 4) + "{}" if False else ""))
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def worker(k, n, outp, sub):
    """runs inside the namespace"""
    ms = [m for m in mutants() if sub in m[0]]
    random.Random(7).shuffle(ms)
    for j, (f, i, new) in enumerate(ms):
        if j % n != k:
            continue
        p = os.path.join(REPO, f)
        orig = open(p).read()
        lines = orig.split("\n")
        old = lines[i]
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        t = time.time()
        try:
            res = judge(f)
        except subprocess.TimeoutExpired:
            res = "timeout"
        open(p, "w").write(orig)
        with open(outp, "a") as o:
            o.write(json.dumps({"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "res": res,
                                "s": round(time.time() - t, 1)}) + "\n")


def judge(f):
    env = dict(os.environ, CARGO_TARGET_DIR="/repo/target", CARGO_NET_OFFLINE="true", RUSTFLAGS="")
    r = sh(["bash", "/opt/vp/build.sh"], timeout=300)
    if r.returncode:
        return "compile"
    try:
        sh(["bash", "/opt/vp/test.sh", "/repo/target/mut.json"], timeout=120)
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-9", "-f", "/repo/target/debug/deps"])
        return "tests(timeout)"
    try:
        d = json.load(open("/repo/target/mut.json"))
    except Exception:
        return "tests"
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("tests") or base.get("passed") or base
    passed = set(d.get("passed", []))
    if not set(stable) <= passed:
        return "tests"
    notes = []
    for c in MAP[f].split():
        x = sh(["python3", "check.py", c], cwd="/verif", env=dict(env, VERIF_TIER="quick", CARGO_TARGET_DIR=""), timeout=900) if False else \
            sh(["python3", "check.py", c], cwd="/verif", env=dict(os.environ, VERIF_TIER="quick"), timeout=900)
        if x.returncode == 1 and "VIOLATION property=" in x.stdout:
            return "caught " + c + (" after " + "; ".join(notes) if notes else "")
        if x.returncode:
            notes.append("%s rc=%d %s" % (c, x.returncode, x.stdout[-300:]))
    return "SURVIVED" + (" " + "; ".join(notes) if notes else "")


if __name__ == "__main__":
    if sys.argv[1] == "list":
        from collections import Counter
        c = Counter(m[0] for m in mutants())
        for f in sorted(c):
            print("%5d %s" % (c[f], f))
        print(sum(c.values()))
    elif sys.argv[1] == "worker":
        worker(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5])
    else:
        outp = os.path.abspath(sys.argv[2])
        n = int(sys.argv[3]) if len(sys.argv) > 3 else 6
        sub = sys.argv[4] if len(sys.argv) > 4 else ""
        ps = []
        for k in range(n):
            w = "/tmp/mutw%d" % k
            shutil.rmtree(w, ignore_errors=True)
            os.makedirs(w)
            subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
            subprocess.run(["cp", "-a", "/verif", w + "/verif"], check=True)
            ps.append(subprocess.Popen(["unshare", "-m", "bash", "-c",
                "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec python3 tools/mutate.py worker %d %d %s '%s'"
                % (w, w, k, n, outp, sub)]))
        for p in ps:
            p.wait()
        for k in range(n):
            shutil.rmtree("/tmp/mutw%d" % k, ignore_errors=True)
