//! Runs histories of library calls: locks IN OUT BASE.  A line of IN is
//!   name|dir|relative(0/1)|id,id,..|token token ..
//! Tokens: mkdir init lock unlock clean begin ok:N own:N save:CMDS cmds:FN:CMDS threads:T:N:SEED;
//! CMDS is kind,a,b;kind,a.. with ranks of ids.  After each call the lock and the graph are observed.
use gc_command::graph_utils as gu;
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::VertexId;
use std::cell::RefCell;
use std::io::{self, BufRead, Write};
use std::sync::{Arc, Mutex};

struct S {
    dir: String,
    ids: Vec<u64>,
    ev: RefCell<Vec<String>>,
}

fn parse_cs(s: &str) -> Vec<Vec<usize>> {
    s.split(';').filter(|x| !x.is_empty()).map(|c| c.split(',').map(|x| x.parse().unwrap()).collect()).collect()
}

fn js_cs(cs: &[Vec<usize>]) -> String {
    let q: Vec<String> = cs.iter().map(|c| format!("[{}]", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect();
    format!("[{}]", q.join(","))
}

fn k<T, E>(r: &Result<T, E>) -> &'static str {
    if r.is_ok() { "ok" } else { "err" }
}

const KINDS: [io::ErrorKind; 8] = [
    io::ErrorKind::Other,
    io::ErrorKind::NotFound,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::Interrupted,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
    io::ErrorKind::UnexpectedEof,
];

impl S {
    fn id(&self, r: usize) -> VertexId {
        VertexId(self.ids[r - 1])
    }
    fn rank(&self, v: &VertexId) -> usize {
        self.ids.iter().position(|x| *x == v.0).map(|p| p + 1).unwrap_or(0)
    }
    fn put(&self, e: String) {
        self.ev.borrow_mut().push(e);
    }
    fn look(&self) {
        self.put(format!("{{\"op\":\"isl\",\"res\":{{\"b\":{}}}}}", gu::is_locked(&self.dir)));
        match gu::load_graph(&self.dir) {
            Ok(g) => {
                let vs: Vec<String> = g.vertices().map(|v| self.rank(v).to_string()).collect();
                let es: Vec<String> = g.edges().map(|e| format!("[{},{}]", self.rank(&e.0), self.rank(&e.1))).collect();
                self.put(format!("{{\"op\":\"load\",\"res\":{{\"k\":\"ok\",\"vs\":[{}],\"es\":[{}]}}}}", vs.join(","), es.join(",")));
            }
            Err(_) => self.put("{\"op\":\"load\",\"res\":{\"k\":\"err\"}}".to_string()),
        }
    }
    fn graph(&self, cs: &[Vec<usize>]) -> DirectedGraph {
        let mut g = DirectedGraph::new();
        for c in cs {
            match c[0] {
                0 => {
                    g.add_vertex(self.id(c[1]));
                }
                _ => {
                    g.add_edge(gc_core::graph::Edge(self.id(c[1]), self.id(c[2])));
                }
            }
        }
        g
    }
    fn cmds(&self, f: &str, cs: &[Vec<usize>]) -> io::Result<()> {
        let d = &self.dir;
        let vs = || cs.iter().map(|c| self.id(c[1])).collect::<Vec<_>>();
        let es = || cs.iter().map(|c| (self.id(c[1]), self.id(c[2]))).collect::<Vec<_>>();
        match f {
            "add_vertex" => gu::add_vertex(d, self.id(cs[0][1])),
            "add_vertices" => gu::add_vertices(d, vs()),
            "add_edge" => gu::add_edge(d, self.id(cs[0][1]), self.id(cs[0][2])),
            "add_edges" => gu::add_edges(d, es()),
            "remove_vertex" => gu::remove_vertex(d, self.id(cs[0][1])),
            "remove_vertices" => gu::remove_vertices(d, vs()),
            "remove_edges" => gu::remove_edges(d, es()),
            _ => panic!("unknown function"),
        }
    }
    /// runs tokens from i on; in a block it returns at the end token. Returns the position after it
    fn run(&self, t: &[&str], mut i: usize, depth: usize) -> (usize, io::Result<u64>, &'static str, u64) {
        while i < t.len() {
            let p: Vec<&str> = t[i].splitn(3, ':').collect();
            i += 1;
            let simple = |r: io::Result<()>| self.put(format!("{{\"op\":\"{}\",\"res\":{{\"k\":\"{}\"}}}}", p[0], k(&r)));
            match p[0] {
                "mkdir" => simple(std::fs::create_dir_all(&self.dir)),
                "init" => simple(gu::init(&self.dir)),
                "lock" => simple(gu::lock(&self.dir)),
                "unlock" => simple(gu::unlock(&self.dir)),
                "clean" => simple(gu::clean(&self.dir)),
                "save" => {
                    let cs = parse_cs(p[1]);
                    let r = gu::save_graph_as_commands(&self.dir, &self.graph(&cs));
                    self.put(format!("{{\"op\":\"save\",\"cs\":{},\"res\":{{\"k\":\"{}\"}}}}", js_cs(&cs), k(&r)));
                }
                "cmds" => {
                    let cs = parse_cs(p[2]);
                    let r = self.cmds(p[1], &cs);
                    self.put(format!("{{\"op\":\"cmds\",\"fn\":\"{}\",\"cs\":{},\"res\":{{\"k\":\"{}\"}}}}", p[1], js_cs(&cs), k(&r)));
                }
                "begin" => {
                    let cell = RefCell::new(None);
                    let r = gu::with_lock(&self.dir, || {
                        self.put("{\"op\":\"begin\",\"res\":{\"k\":\"in\"}}".to_string());
                        self.look();
                        let (j, r, w, n) = self.run(t, i, depth + 1);
                        *cell.borrow_mut() = Some((j, w, n));
                        r
                    });
                    let c = *cell.borrow();
                    match c {
                        Some((j, w, n)) => {
                            let got = match &r {
                                Ok(v) if *v == n && w == "ok" => "ok",
                                Err(e) if w == "own" && e.kind() == KINDS[n as usize % 8] && e.to_string() == format!("own {}", n) => "own",
                                Ok(_) => "changed",
                                Err(_) => "err",
                            };
                            self.put(format!("{{\"op\":\"end\",\"want\":\"{}\",\"res\":{{\"k\":\"{}\"}}}}", w, got));
                            i = j;
                        }
                        None => {
                            self.put(format!("{{\"op\":\"begin\",\"res\":{{\"k\":\"{}\"}}}}", if r.is_err() { "err" } else { "notrun" }));
                            // the block is skipped
                            let mut d = 1;
                            while i < t.len() && d > 0 {
                                if t[i] == "begin" {
                                    d += 1
                                } else if t[i].starts_with("ok:") || t[i].starts_with("own:") {
                                    d -= 1
                                }
                                i += 1;
                            }
                        }
                    }
                }
                "ok" | "own" => {
                    let n: u64 = p[1].parse().unwrap();
                    if depth == 0 {
                        continue;
                    }
                    let w = if p[0] == "ok" { "ok" } else { "own" };
                    let r = if w == "ok" { Ok(n) } else { Err(io::Error::new(KINDS[n as usize % 8], format!("own {}", n))) };
                    return (i, r, w, n);
                }
                "threads" => self.threads(p[1].parse().unwrap(), p[2].parse().unwrap()),
                _ => panic!("token {}", p[0]),
            }
            self.look();
        }
        (i, Ok(7), "ok", 7)
    }
    fn threads(&self, n: usize, rounds: usize) {
        let log: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
        let hs: Vec<_> = (1..=n)
            .map(|t| {
                let log = log.clone();
                let dir = self.dir.clone();
                let ids = self.ids.clone();
                std::thread::spawn(move || {
                    let put = |s: String| log.lock().unwrap().push(s);
                    let mut next = t;
                    for r in 0..rounds {
                        put(format!("{{\"op\":\"try\",\"t\":{}}}", t));
                        let mut cs = String::from("[]");
                        let ok = match (r + t) % 3 {
                            0 if next <= ids.len() => {
                                let a = gu::add_vertex(&dir, VertexId(ids[next - 1])).is_ok();
                                cs = format!("[[0,{}]]", next);
                                if a {
                                    next += n;
                                }
                                a
                            }
                            x => gu::with_lock(&dir, || {
                                put(format!("{{\"op\":\"enter\",\"t\":{}}}", t));
                                for _ in 0..(r % 7) * 20 {
                                    std::thread::yield_now();
                                }
                                if r % 5 == 0 {
                                    std::thread::sleep(std::time::Duration::from_micros(50));
                                }
                                put(format!("{{\"op\":\"exit\",\"t\":{}}}", t));
                                if x == 1 { Ok(1) } else { Err(io::Error::new(io::ErrorKind::Other, "own")) }
                            })
                            .map_or_else(|e| e.to_string() == "own", |v| v == 1),
                        };
                        put(format!("{{\"op\":\"back\",\"t\":{},\"cs\":{},\"res\":{{\"k\":\"{}\"}}}}", t, cs, if ok { "ok" } else { "err" }));
                        if r % 4 == 0 {
                            std::thread::yield_now();
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        self.ev.borrow_mut().append(&mut log.lock().unwrap());
    }
}

fn main() -> io::Result<()> {
    let a: Vec<String> = std::env::args().collect();
    let base = std::fs::canonicalize(&a[3])?;
    std::env::set_current_dir(&base)?;
    let input = io::BufReader::new(std::fs::File::open(&a[1])?);
    let mut out = io::BufWriter::new(std::fs::File::create(&a[2])?);
    for (n, line) in input.lines().enumerate() {
        let line = line?;
        let f: Vec<&str> = line.splitn(5, '|').collect();
        let top = base.join(format!("s{}", n));
        std::fs::create_dir(&top)?;
        let dir = if f[2] == "1" { format!("s{}/{}", n, f[1]) } else { top.join(f[1]).to_str().unwrap().to_string() };
        let s = S { dir, ids: f[3].split(',').map(|x| x.parse().unwrap()).collect(), ev: RefCell::new(vec![]) };
        let t: Vec<&str> = f[4].split_whitespace().collect();
        let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            s.look();
            s.run(&t, 0, 0);
        }));
        if done.is_err() {
            s.put("{\"op\":\"panic\"}".to_string());
        }
        writeln!(out, "{{\"id\":\"{}#{}\",\"ev\":[{}]}}", f[0], n, s.ev.borrow().join(","))?;
        out.flush()?;
        std::fs::remove_dir_all(&top)?;
    }
    out.flush()
}
