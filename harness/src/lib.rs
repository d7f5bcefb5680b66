//! Shared machinery of the conformance harness: seeded generators, the
//! session recorder (NDJSON read by the TLA+ trace specifications), and guards
//! that turn panics, hangs and aborts of the code under test into recorded results.
pub mod con;
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::{Edge, VertexId};
use gc_core::graph_command::GraphCommand;
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufWriter, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- arguments

pub struct Args {
    pub out: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: u64,
    pub input: Option<String>,
}

/// usage: BIN OUT.ndjson [INPUT]; VERIF_SEED, VERIF_TIER, VERIF_SCALE in the environment
pub fn args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    Args {
        out: a.get(1).expect("output file").clone(),
        input: a.get(2).cloned(),
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        thorough: env("VERIF_TIER", "quick") == "thorough",
        scale: env("VERIF_SCALE", "1").parse().unwrap_or(1),
    }
}

impl Args {
    /// quick or thorough amount
    pub fn amount(&self, quick: usize, thorough: usize) -> usize {
        (if self.thorough { thorough } else { quick }) * self.scale as usize
    }
}

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, xs: &mut Vec<T>) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- sessions

struct Pending {
    json: String,
    deadline: Option<Instant>,
}

static PENDING: Mutex<Pending> = Mutex::new(Pending {
    json: String::new(),
    deadline: None,
});
static SIDE: Mutex<Option<File>> = Mutex::new(None);

pub struct Out {
    w: BufWriter<File>,
    pub sessions: usize,
    pub events: usize,
}

impl Out {
    pub fn new(a: &Args) -> Out {
        std::panic::set_hook(Box::new(|_| {}));
        *SIDE.lock().unwrap() = Some(File::create(format!("{}.side", a.out)).expect("side file"));
        let hang = format!("{}.hang", a.out);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(50));
            let p = PENDING.lock().unwrap();
            if let Some(d) = p.deadline {
                if Instant::now() > d {
                    let s = p.json.replace("\"k\":\"abort\"", "\"k\":\"hang\"");
                    std::fs::write(&hang, s).ok();
                    std::process::exit(77);
                }
            }
        });
        Out {
            w: BufWriter::new(File::create(&a.out).expect("output file")),
            sessions: 0,
            events: 0,
        }
    }
    pub fn finish(mut self) {
        self.w.flush().unwrap();
        println!("sessions={} events={}", self.sessions, self.events);
        // the watchdog thread dies with us
        std::process::exit(0);
    }
}

/// One recorded session: a sequence of events, each `{"op":..., ..., "res":...}`
pub struct Sess {
    id: String,
    ev: Vec<String>,
    pub limit: Duration,
}

impl Sess {
    pub fn new(id: &str) -> Sess {
        Sess {
            id: id.to_string(),
            ev: vec![],
            limit: Duration::from_secs(60),
        }
    }
    pub fn event(&mut self, json: String) {
        self.ev.push(json);
    }
    fn json(&self, extra: Option<&str>) -> String {
        let mut s = format!("{{\"id\":\"{}\",\"ev\":[{}", self.id, self.ev.join(","));
        if let Some(e) = extra {
            if !self.ev.is_empty() {
                s.push(',');
            }
            s.push_str(e);
        }
        s.push_str("]}");
        s
    }
    /// Runs code under test. `desc` is the event without its result: `"op":"x","a":1`.
    /// The closure gives the result as JSON; a panic gives {"k":"panic"}.
    pub fn call<F: FnOnce() -> String>(&mut self, desc: &str, f: F) {
        let abort = format!("{{{},\"res\":{{\"k\":\"abort\"}}}}", desc);
        let json = self.json(Some(&abort));
        if let Some(side) = SIDE.lock().unwrap().as_mut() {
            side.seek(SeekFrom::Start(0)).ok();
            side.write_all(json.as_bytes()).ok();
            side.set_len(json.len() as u64).ok();
        }
        {
            let mut p = PENDING.lock().unwrap();
            p.json = json;
            p.deadline = Some(Instant::now() + self.limit);
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        PENDING.lock().unwrap().deadline = None;
        let res = r.unwrap_or_else(|_| "{\"k\":\"panic\"}".to_string());
        self.ev.push(format!("{{{},\"res\":{}}}", desc, res));
    }
    pub fn write(self, out: &mut Out) {
        out.sessions += 1;
        out.events += self.ev.len();
        writeln!(out.w, "{}", self.json(None)).unwrap();
    }
}

// ---------------------------------------------------------------- JSON bits

pub fn arr<T: std::fmt::Display, I: IntoIterator<Item = T>>(xs: I) -> String {
    let v: Vec<String> = xs.into_iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

pub fn q(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

// ---------------------------------------------------------------- ids and graphs

/// Order-preserving naming of real 64-bit ids by small ranks 1..=n
#[derive(Clone)]
pub struct Ids {
    pub real: Vec<u64>,
    back: HashMap<u64, usize>,
}

pub const UNKNOWN: usize = 9999;

impl Ids {
    pub fn from(mut real: Vec<u64>) -> Ids {
        real.sort();
        real.dedup();
        let back = real.iter().enumerate().map(|(i, x)| (*x, i + 1)).collect();
        Ids { real, back }
    }
    pub fn gen(rng: &mut Rng, n: usize) -> Ids {
        let mut v: Vec<u64> = vec![];
        match rng.below(5) {
            0 => v.extend(1..=(n as u64)),
            1 => v.extend(0..(n as u64)),
            2 => {
                // gaps
                let mut x = rng.below(3);
                for _ in 0..n {
                    v.push(x);
                    x += 1 + rng.below(1000);
                }
            }
            3 => {
                let ext = [
                    0,
                    1,
                    u64::MAX,
                    u64::MAX - 1,
                    1 << 63,
                    (1 << 63) - 1,
                    1 << 32,
                    (1 << 32) - 1,
                    (1 << 53) + 1,
                    1 << 53,
                    10,
                    9,
                    100,
                    99,
                ];
                let mut e = ext.to_vec();
                rng.shuffle(&mut e);
                v.extend(e.iter().take(n));
                while v.len() < n {
                    let x = rng.next();
                    if !v.contains(&x) {
                        v.push(x)
                    }
                }
            }
            _ => {
                while v.len() < n {
                    let x = rng.next();
                    if !v.contains(&x) {
                        v.push(x)
                    }
                }
            }
        }
        Ids::from(v)
    }
    pub fn n(&self) -> usize {
        self.real.len()
    }
    pub fn v(&self, rank: usize) -> VertexId {
        VertexId(self.real[rank - 1])
    }
    pub fn e(&self, a: usize, b: usize) -> Edge {
        Edge(self.v(a), self.v(b))
    }
    pub fn r(&self, v: VertexId) -> usize {
        *self.back.get(&v.0).unwrap_or(&UNKNOWN)
    }
    pub fn path(&self, vs: &[VertexId]) -> String {
        arr(vs.iter().map(|v| self.r(*v)))
    }
    pub fn edge(&self, e: &Edge) -> String {
        format!("[{},{}]", self.r(e.0), self.r(e.1))
    }
}

/// A graph command on ranks: (0 add vertex, 1 add edge, 2 remove vertex, 3 remove edge)
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Cmd(pub u8, pub usize, pub usize);

impl Cmd {
    pub fn json(&self) -> String {
        match self.0 {
            0 | 2 => format!("[{},{}]", self.0, self.1),
            _ => format!("[{},{},{}]", self.0, self.1, self.2),
        }
    }
    pub fn real(&self, ids: &Ids) -> GraphCommand {
        match self.0 {
            0 => GraphCommand::AddVertex(ids.v(self.1)),
            1 => GraphCommand::AddEdge(ids.v(self.1), ids.v(self.2)),
            2 => GraphCommand::RemoveVertex(ids.v(self.1)),
            _ => GraphCommand::RemoveEdge(ids.v(self.1), ids.v(self.2)),
        }
    }
}

/// A graph given by the history that builds it
#[derive(Clone)]
pub struct Spec {
    pub ids: Ids,
    pub cmds: Vec<Cmd>,
}

impl Spec {
    pub fn json(&self) -> String {
        format!(
            "{{\"op\":\"cmds\",\"cs\":{}}}",
            arr(self.cmds.iter().map(|c| c.json()))
        )
    }
    pub fn build(&self) -> DirectedGraph {
        let mut g = DirectedGraph::new();
        for c in &self.cmds {
            // direct calls, not apply_commands: the two are compared by C01
            match c.0 {
                0 => {
                    g.add_vertex(self.ids.v(c.1));
                }
                1 => {
                    g.add_edge(self.ids.e(c.1, c.2));
                }
                2 => {
                    g.remove_vertex(self.ids.v(c.1));
                }
                _ => {
                    g.remove_edge(self.ids.e(c.1, c.2));
                }
            }
        }
        g
    }
    /// vertices and edges of the final graph, computed on our own (for choosing inputs only)
    pub fn model(&self) -> (Vec<usize>, Vec<(usize, usize)>) {
        let mut vs: Vec<usize> = vec![];
        let mut es: Vec<(usize, usize)> = vec![];
        for c in &self.cmds {
            match c.0 {
                0 => vs.push(c.1),
                1 => {
                    vs.push(c.1);
                    vs.push(c.2);
                    es.push((c.1, c.2));
                }
                2 => {
                    vs.retain(|v| *v != c.1);
                    es.retain(|e| e.0 != c.1 && e.1 != c.1);
                }
                _ => es.retain(|e| *e != (c.1, c.2)),
            }
            vs.sort();
            vs.dedup();
            es.sort();
            es.dedup();
        }
        (vs, es)
    }
}

/// Builds commands for the given vertex ranks and edges, in random order
pub fn cmds_of(rng: &mut Rng, vs: &[usize], es: &[(usize, usize)]) -> Vec<Cmd> {
    let mut c: Vec<Cmd> = vs.iter().map(|v| Cmd(0, *v, 0)).collect();
    let mut e: Vec<Cmd> = es.iter().map(|(a, b)| Cmd(1, *a, *b)).collect();
    if rng.chance(50) {
        rng.shuffle(&mut c);
        rng.shuffle(&mut e);
        c.extend(e);
    } else {
        c.extend(e);
        rng.shuffle(&mut c);
    }
    c
}

/// All directed graphs (self-loops included if `loops`) over 1..=n: the i-th
pub fn nth_graph(n: usize, loops: bool, i: u64) -> Vec<(usize, usize)> {
    let mut es = vec![];
    let mut bit = 0;
    for a in 1..=n {
        for b in 1..=n {
            if a == b && !loops {
                continue;
            }
            if i >> bit & 1 == 1 {
                es.push((a, b));
            }
            bit += 1;
        }
    }
    es
}

pub fn graph_count(n: usize, loops: bool) -> u64 {
    1u64 << (if loops { n * n } else { n * (n - 1) })
}

/// A random edge set over 1..=n
pub fn random_edges(rng: &mut Rng, n: usize) -> Vec<(usize, usize)> {
    let mut es: Vec<(usize, usize)> = vec![];
    let mut perm: Vec<usize> = (1..=n).collect();
    rng.shuffle(&mut perm);
    let p = |i: usize| perm[i % n];
    match rng.below(11) {
        0 | 1 | 2 => {
            let d = *rng.pick(&[8, 15, 25, 40, 60]);
            let l = *rng.pick(&[0, 0, 20]);
            for a in 1..=n {
                for b in 1..=n {
                    if rng.chance(if a == b { l } else { d }) {
                        es.push((a, b));
                    }
                }
            }
        }
        3 | 4 => {
            // dag along the permutation
            let d = *rng.pick(&[15, 30, 60]);
            for i in 0..n {
                for j in i + 1..n {
                    if rng.chance(d) {
                        es.push((p(i), p(j)));
                    }
                }
            }
        }
        5 => {
            // ring with chords
            for i in 0..n {
                es.push((p(i), p(i + 1)));
            }
            for _ in 0..rng.below(4) {
                es.push((p(rng.below(n as u64) as usize), p(rng.below(n as u64) as usize)));
            }
        }
        6 => {
            // chain of diamonds / ladder, possibly closed
            let mut i = 0;
            while i + 3 < n {
                es.push((p(i), p(i + 1)));
                es.push((p(i), p(i + 2)));
                es.push((p(i + 1), p(i + 3)));
                es.push((p(i + 2), p(i + 3)));
                i += 3;
            }
            if rng.chance(30) {
                es.push((p(i), p(0)));
            }
        }
        7 => {
            // two or three separate pieces, each a cycle or a tree
            let k = 2 + rng.below(2) as usize;
            for i in 0..n {
                let j = i + k;
                if j < n {
                    es.push((p(i), p(j)));
                } else if rng.chance(50) {
                    es.push((p(i), p(i % k)));
                }
            }
        }
        8 => {
            // functional graph with some reversals
            for i in 1..=n {
                let j = 1 + rng.below(n as u64) as usize;
                if rng.chance(80) {
                    es.push((i, j));
                } else {
                    es.push((j, i));
                }
            }
        }
        9 => {
            // random tree, out or in
            for i in 1..n {
                let j = rng.below(i as u64) as usize;
                if rng.chance(85) {
                    es.push((p(j), p(i)));
                } else {
                    es.push((p(i), p(j)));
                }
            }
            if rng.chance(40) {
                es.push((p(n - 1), p(0)));
            }
        }
        _ => {
            // star / hub
            for i in 1..n {
                if rng.chance(60) {
                    es.push((p(0), p(i)));
                }
                if rng.chance(40) {
                    es.push((p(i), p(0)));
                }
            }
            if rng.chance(30) {
                es.push((p(0), p(0)));
            }
        }
    }
    es.sort();
    es.dedup();
    es
}

/// A sparse graph over 1..=n of a regular shape: few simple paths even when n is large
pub fn large_edges(rng: &mut Rng, n: usize) -> Vec<(usize, usize)> {
    let mut perm: Vec<usize> = (1..=n).collect();
    match rng.below(3) {
        0 => rng.shuffle(&mut perm),
        1 => perm.reverse(),
        _ => {}
    }
    let p = |i: usize| perm[i % n];
    let mut es = vec![];
    match rng.below(9) {
        0 => es.extend((0..n - 1).map(|i| (p(i), p(i + 1)))), // chain
        1 => es.extend((0..n).map(|i| (p(i), p(i + 1)))),     // ring
        2 => es.extend((1..n).map(|i| (p(0), p(i)))),         // out star
        3 => es.extend((1..n).map(|i| (p(i), p(0)))),         // in star
        4 => {
            // binary tree
            es.extend((1..n).map(|i| (p((i - 1) / 2), p(i))))
        }
        5 => {
            // tree leaning on its last branch
            for i in 1..n {
                let j = i - 1 - rng.below((i as u64).min(4)) as usize;
                es.push((p(j), p(i)));
            }
        }
        6 => {
            // pairs x <-> y, chained now and then
            let mut i = 0;
            while i + 1 < n {
                es.push((p(i), p(i + 1)));
                es.push((p(i + 1), p(i)));
                if i + 2 < n && rng.chance(20) {
                    es.push((p(i + 1), p(i + 2)));
                }
                i += 2;
            }
        }
        7 => {
            // many small rings of different lengths, with self-loops
            let mut i = 0;
            while i < n {
                let k = (1 + rng.below(7) as usize).min(n - i);
                for j in 0..k {
                    es.push((p(i + j), p(i + (j + 1) % k)));
                }
                i += k;
            }
        }
        _ => {
            // forest of chains hanging below a chain
            for i in 1..n {
                let j = if rng.chance(85) { i - 1 } else { rng.below(i as u64) as usize };
                es.push((p(j), p(i)));
            }
        }
    }
    // some more edges
    for _ in 0..*rng.pick(&[0, 0, 1, 2, 3]) {
        es.push((1 + rng.below(n as u64) as usize, 1 + rng.below(n as u64) as usize));
    }
    es.sort();
    es.dedup();
    es
}

/// larger graphs of a sparse shape
pub fn large(rng: &mut Rng, count: usize, nmin: usize, nmax: usize) -> Vec<(String, Spec)> {
    (0..count)
        .map(|k| {
            let n = rng.range(nmin as i64, nmax as i64) as usize;
            let es = large_edges(rng, n);
            (format!("L{}", k), spec_of(rng, n, &es))
        })
        .collect()
}

/// Random history: additions and removals (removals included with some probability)
pub fn random_spec(rng: &mut Rng, nmax: usize) -> Spec {
    let n = 1 + rng.below(nmax as u64) as usize;
    let ids = Ids::gen(rng, n);
    let es = random_edges(rng, n);
    let keep = *rng.pick(&[100, 100, 60]);
    let vs: Vec<usize> = (1..=n).filter(|_| rng.chance(keep)).collect();
    let mut cmds = cmds_of(rng, &vs, &es);
    if rng.chance(35) {
        // sprinkle removals (and re-additions) of things
        for _ in 0..1 + rng.below(6) {
            let at = rng.below(cmds.len() as u64 + 1) as usize;
            let c = if rng.chance(40) {
                Cmd(2, 1 + rng.below(n as u64) as usize, 0)
            } else if !es.is_empty() && rng.chance(70) {
                let (a, b) = *rng.pick(&es);
                Cmd(if rng.chance(70) { 3 } else { 1 }, a, b)
            } else {
                Cmd(3, 1 + rng.below(n as u64) as usize, 1 + rng.below(n as u64) as usize)
            };
            cmds.insert(at, c);
        }
    }
    if rng.chance(15) && !cmds.is_empty() {
        let c = *rng.pick(&cmds);
        cmds.push(c);
    }
    Spec { ids, cmds }
}

/// Spec of the i-th graph over n vertices, all present
pub fn nth_spec(rng: &mut Rng, n: usize, loops: bool, i: u64) -> Spec {
    let ids = Ids::gen(rng, n);
    let vs: Vec<usize> = (1..=n).collect();
    let es = nth_graph(n, loops, i);
    let cmds = cmds_of(rng, &vs, &es);
    Spec { ids, cmds }
}

/// the same with the vertices permuted
pub fn nth_relabelled(rng: &mut Rng, n: usize, loops: bool, i: u64) -> Spec {
    let mut p: Vec<usize> = (1..=n).collect();
    rng.shuffle(&mut p);
    let es: Vec<(usize, usize)> = nth_graph(n, loops, i).iter().map(|(a, b)| (p[a - 1], p[b - 1])).collect();
    spec_of(rng, n, &es)
}

pub fn spec_of(rng: &mut Rng, n: usize, es: &[(usize, usize)]) -> Spec {
    let ids = Ids::gen(rng, n);
    let vs: Vec<usize> = (1..=n).collect();
    let cmds = cmds_of(rng, &vs, es);
    Spec { ids, cmds }
}

/// one graph of each isomorphism class of directed graphs over n vertices
pub fn classes(n: usize, loops: bool) -> Vec<u64> {
    // bit of edge (a, b), as in nth_graph
    let bit = |a: usize, b: usize| if loops { a * n + b } else { a * (n - 1) + b - (b > a) as usize };
    let mut perms: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        perms = perms
            .iter()
            .flat_map(|p| (0..n).filter(move |x| !p.contains(x)).map(move |x| [&p[..], &[x]].concat()))
            .collect();
    }
    let mut edges = vec![];
    for a in 0..n {
        for b in 0..n {
            if loops || a != b {
                edges.push((a, b));
            }
        }
    }
    // where each bit goes under a permutation
    let maps: Vec<Vec<usize>> = perms.iter().map(|p| edges.iter().map(|(a, b)| bit(p[*a], p[*b])).collect()).collect();
    let mut res = vec![];
    'graphs: for i in 0..graph_count(n, loops) {
        for m in &maps {
            let mut j = 0u64;
            for k in 0..m.len() {
                j |= (i >> k & 1) << m[k];
            }
            if j < i {
                continue 'graphs;
            }
        }
        res.push(i);
    }
    res
}

/// chains, rings and stars of sizes around plausible limits
pub fn regular(rng: &mut Rng, sizes: &[usize]) -> Vec<(String, Spec)> {
    let mut res = vec![];
    for n in sizes {
        for shape in 0..4 {
            let mut p: Vec<usize> = (1..=*n).collect();
            if rng.chance(50) {
                rng.shuffle(&mut p);
            }
            let es: Vec<(usize, usize)> = match shape {
                0 => (1..*n).map(|i| (p[i - 1], p[i])).collect(),
                1 => (0..*n).map(|i| (p[i], p[(i + 1) % n])).collect(),
                2 => (1..*n).map(|i| (p[0], p[i])).collect(),
                _ => (1..*n).map(|i| (p[i], p[0])).collect(),
            };
            res.push((format!("L{}_{}", ["chain", "ring", "out", "in"][shape], n), spec_of(rng, *n, &es)));
        }
    }
    res
}

/// The vertices an algorithm is started from: a vertex that reaches as many as any other, and
/// others at random; all of them in graphs of up to three vertices.
pub fn starts(rng: &mut Rng, vs: &[usize], es: &[(usize, usize)]) -> Vec<usize> {
    let mut res = vs.to_vec();
    rng.shuffle(&mut res);
    if vs.len() <= 3 {
        return res;
    }
    let top = *vs.iter().max().unwrap();
    let mut out: Vec<Vec<usize>> = vec![vec![]; top + 1];
    for (a, b) in es {
        out[*a].push(*b);
    }
    let reach = |v: usize| {
        let mut seen = vec![false; top + 1];
        let (mut todo, mut n) = (vec![v], 0);
        seen[v] = true;
        while let Some(x) = todo.pop() {
            n += 1;
            for y in &out[x] {
                if !seen[*y] {
                    seen[*y] = true;
                    todo.push(*y);
                }
            }
        }
        n
    };
    let best = (0..res.len()).max_by_key(|i| reach(res[*i])).unwrap();
    res.swap(0, best);
    res.truncate(2);
    res
}

/// The graphs every algorithm is run on: all graphs of up to three vertices with self-loops,
/// one of each isomorphism class of four vertices (without self-loops; in the thorough tier with
/// self-loops, and of five vertices without), more of four vertices, and random graphs of up to
/// `nmax` vertices built by random histories.
pub fn corpus(a: &Args, rng: &mut Rng, four: usize, random: usize, nmax: usize) -> Vec<(String, Spec)> {
    let mut res = vec![(
        "empty".to_string(),
        Spec { ids: Ids::from(vec![1]), cmds: vec![] },
    )];
    for n in 1..=3 {
        for i in 0..graph_count(n, true) {
            res.push((format!("g{}_{}", n, i), nth_spec(rng, n, true, i)));
        }
    }
    if four > 0 {
        for i in classes(4, a.thorough) {
            res.push((format!("c4_{}", i), nth_relabelled(rng, 4, a.thorough, i)));
        }
        if a.thorough {
            for i in classes(5, false) {
                res.push((format!("c5_{}", i), nth_relabelled(rng, 5, false, i)));
            }
        }
    }
    for _ in 0..four {
        let i = rng.below(graph_count(4, true));
        res.push((format!("g4l_{}", i), nth_spec(rng, 4, true, i)));
    }
    for k in 0..random {
        res.push((format!("r{}", k), random_spec(rng, nmax)));
    }
    res
}

/// A budget on calls into user closures: the search is stopped (and reported as
/// "budget") when it asks for more.
pub struct Budget;
impl Budget {
    pub fn panic() -> ! {
        std::panic::panic_any(Budget)
    }
}

/// runs f; a Budget panic gives Err
pub fn with_budget<T, F: FnOnce() -> T>(f: F) -> Result<T, ()> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => {
            if e.is::<Budget>() {
                Err(())
            } else {
                std::panic::resume_unwind(e)
            }
        }
    }
}

/// weights of edges in the trace: [[a,b,w],...]
pub fn wjson(ws: &[((usize, usize), i64)]) -> String {
    arr(ws.iter().map(|((a, b), w)| format!("[{},{},{}]", a, b, w)))
}

/// An exact division: anything else becomes a value no specification accepts
pub fn unscale(x: i64, s: i64) -> i64 {
    if x % s == 0 && (x / s).abs() < 900_000_000 {
        x / s
    } else {
        777_777_777
    }
}

/// a consistent heuristic for target t (h(t) = 0, h(x) <= w(x, y) + h(y)) on edges `w`: the largest one
/// below a random function that does not exceed the distance to t; `far` bounds it where t cannot be reached
pub fn consistent_heuristic(
    rng: &mut Rng,
    vs: &[usize],
    w: &[((usize, usize), i64)],
    t: usize,
    far: i64,
) -> std::collections::HashMap<usize, i64> {
    let relax = |mut d: std::collections::HashMap<usize, i64>| {
        loop {
            let mut again = false;
            for ((x, y), c) in w {
                if let Some(dy) = d.get(y).cloned() {
                    if d.get(x).map_or(true, |o| dy + c < *o) {
                        d.insert(*x, dy + c);
                        again = true;
                    }
                }
            }
            if !again {
                return d;
            }
        }
    };
    let exact = relax([(t, 0)].into_iter().collect());
    let mode = rng.below(5);
    let mut r = std::collections::HashMap::new();
    for v in vs {
        let top = *exact.get(v).unwrap_or(&far);
        let x = match mode {
            0 => 0,
            1 => top,
            2 => top / (1 + rng.below(3) as i64),
            // all or nothing: the most uneven consistent heuristics
            3 => if rng.chance(50) { top } else { 0 },
            _ => rng.range(0, top),
        };
        r.insert(*v, x);
    }
    relax(r)
}
