#!/usr/bin/env python3
"""Makes and confirms planted bugs.

usage: seed.py DEFS.py [id ...]

DEFS.py defines BUGS: a list of dicts
  id, property, needs, breaks, edits=[(file, old, new)],
  and either cli='<shell body>' or lib='<rust body of main>' (files={name: text} optional).
Every bug is built in a scratch copy of /repo, has to pass the stable tests there, and its
demonstration has to succeed without and to fail with the change. Only then is it written
to /verif/seeded/<id>.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', [])) \
    if os.path.exists('/opt/vp/BASELINE.json') else set()

CLI = '''#!/bin/bash
# Demonstration: exit 0 when the property holds, non-zero when it is broken.
set -u
bin="$PWD/target/debug"
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
fail() { echo "BROKEN: $*" >&2; exit 1; }
cd "$work" || exit 2
'''
LIB = '''#!/bin/bash
# Demonstration: exit 0 when the property holds, non-zero when it is broken.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp Cargo.lock "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
%s = { path = "$PWD/%s" }
[workspace]
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
cargo run --offline -q --manifest-path "$work/Cargo.toml"
'''
RS = '''#![allow(unused)]
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::{Edge, VertexId};
use gc_core::path::{Path, ScoredPath};
use std::collections::{HashMap, HashSet};

fn v(x: u64) -> VertexId { VertexId(x) }
fn e(a: u64, b: u64) -> Edge { Edge(v(a), v(b)) }
fn graph(vs: &[u64], es: &[(u64, u64)]) -> DirectedGraph {
    let mut g = DirectedGraph::new();
    for x in vs { g.add_vertex(v(*x)); }
    for (a, b) in es { g.add_edge(e(*a, *b)); }
    g
}
fn path(vs: &[u64]) -> Path { Path::from(&vs.iter().map(|x| v(*x)).collect()) }

fn main() {
%s
}
'''

ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_TERM_COLOR='never',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='',
           RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')


def run(cmd, cwd, env=ENV, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout, shell=isinstance(cmd, str))


def touch(work):
    run("find core command -name '*.rs' -exec touch {} +", work)


def build(work):
    touch(work)
    env = dict(ENV, CARGO_TARGET_DIR=work + '/target')
    return run('cargo build --workspace --offline -q', work, env)


def tests(work):
    env = dict(ENV, CARGO_TARGET_DIR=work + '/target')
    r = run('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', work, env)
    ok = sum(1 for l in r.stdout.splitlines() if l.startswith('test ') and l.endswith('... ok'))
    bad = [l for l in r.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
    return ok, bad, r.stdout


def main():
    defs = runpy.run_path(sys.argv[1])['BUGS']
    only = set(sys.argv[2:])
    work = tempfile.mkdtemp(prefix='seedwork')
    shutil.rmtree(work)
    subprocess.check_call(['cp', '-a', REPO, work])
    try:
        for b in defs:
            if only and b['id'] not in only:
                continue
            one(b, work)
            subprocess.check_call(['git', '-C', work, 'checkout', '-q', '--', '.'])
    finally:
        shutil.rmtree(work)


def one(b, work):
    def say(*a):
        print(b['id'], *a, flush=True)
    demo = tempfile.mkdtemp(prefix='demo')
    try:
        if 'cli' in b:
            text = CLI + b['cli']
        else:
            c = ('gc-command', 'command') if b.get('crate') == 'command' else ('gc-core', 'core')
            text = LIB % c
            if b.get('crate') == 'command':
                text = text.replace('[workspace]', 'gc-core = { path = "$PWD/core" }\n[workspace]')
            rs = b.get('main') or RS % b['lib']
            open(demo + '/main.rs', 'w').write(rs)
        open(demo + '/demo.sh', 'w').write(text)
        for name, t in b.get('files', {}).items():
            open(os.path.join(demo, name), 'w').write(t)
        r = build(work)
        if r.returncode:
            return say('clean build failed', r.stdout[-2000:])
        for _ in range(3):
            r = run(['bash', demo + '/demo.sh'], work)
            if r.returncode:
                return say('REJECTED: demo fails on the clean tree', r.stdout[-3000:])
        for f, old, new in b['edits']:
            p = os.path.join(work, f)
            s = open(p).read()
            if s.count(old) != 1:
                return say('REJECTED: edit matches', s.count(old), 'times in', f, repr(old))
            open(p, 'w').write(s.replace(old, new))
        d = run(['git', 'diff'], work).stdout
        r = build(work)
        if r.returncode:
            return say('REJECTED: does not build', r.stdout[-3000:])
        ok, bad, out = tests(work)
        if ok < 144 or bad:
            return say('REJECTED: tests', ok, bad, out[-1500:] if ok < 100 else '')
        for _ in range(3):
            r = run(['bash', demo + '/demo.sh'], work)
            if r.returncode == 0:
                return say('REJECTED: demo passes with the change')
        dst = os.path.join(VERIF, 'seeded', b['id'])
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(demo, dst)
        os.chmod(dst + '/demo.sh', 0o755)
        open(dst + '/patch.diff', 'w').write(d)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(dst + '/meta.json', 'w'), indent=1)
        say('kept:', r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else '')
    finally:
        shutil.rmtree(demo)


main()
