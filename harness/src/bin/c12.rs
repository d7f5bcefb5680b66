//! C12: meaning of constraints on complete and partial paths
use gc_core::path::{Path, ScoredPath};
use gch::con::{score, Gen, C};
use gch::*;

fn walk(rng: &mut Rng, n: usize, len: usize) -> Vec<usize> {
    let mut p = vec![];
    for _ in 0..len {
        p.push(1 + rng.below(n as u64) as usize);
    }
    p
}

fn one(s: &mut Sess, rng: &mut Rng, n: usize, c: &C, p: &[usize], sc: i64, x: usize) {
    let ids = Ids::gen(rng, n + 1);
    let scale = *rng.pick(&[1i64, 1, 1 << 40]);
    let real = c.real(&ids, scale);
    let sp = ScoredPath {
        path: Path::from(&p.iter().map(|v| ids.v(*v)).collect()),
        score: score(sc, scale),
    };
    let desc = format!(
        "\"op\":\"con\",\"c\":{},\"p\":{},\"sc\":{},\"u\":{},\"x\":{}",
        c.json(),
        arr(p.iter()),
        sc,
        arr(1..=n + 1),
        x
    );
    s.call(&desc, || {
        format!("{{\"k\":\"ok\",\"full\":{},\"part\":{}}}", real.check_complete(&sp), real.check_partial(&sp))
    });
}

/// everything a path tells about itself
fn view(p: &Path, ids: &Ids, n: usize, probe: &[(usize, usize)]) -> String {
    let o = |v: Option<&gc_core::graph::VertexId>| v.map_or(0, |v| ids.r(*v));
    format!(
        "{{\"vs\":{},\"es\":{},\"size\":{},\"empty\":{},\"first\":{},\"last\":{},\"cyc\":{},\"hasv\":{},\"hase\":{}}}",
        arr(p.to_vertex_list().map(|v| ids.r(*v))),
        arr(p.to_edge_list().map(|e| ids.edge(&e))),
        p.size(),
        p.is_empty(),
        o(p.first()),
        o(p.last()),
        p.contains_cycle(),
        arr((1..=n).map(|v| format!("[{},{}]", v, p.contains_vertex(&ids.v(v))))),
        arr(probe.iter().map(|(a, b)| format!("[{},{},{}]", a, b, p.contains_edge(&ids.e(*a, *b)))))
    )
}

fn observe(s: &mut Sess, rng: &mut Rng, n: usize, p: &[usize]) {
    let ids = Ids::gen(rng, n);
    let v = 1 + rng.below(n as u64) as usize;
    let mut probe: Vec<(usize, usize)> = p.windows(2).take(8).map(|w| (w[0], w[1])).collect();
    if let Some(l) = p.last() {
        probe.push((*l, v));
        probe.push((v, *l));
        probe.push((*l, p[0]));
    }
    for _ in 0..6 {
        probe.push((1 + rng.below(n as u64) as usize, 1 + rng.below(n as u64) as usize));
    }
    s.call(&format!("\"op\":\"path\",\"p\":{},\"v\":{}", arr(p.iter()), v), || {
        let real: Vec<_> = p.iter().map(|v| ids.v(*v)).collect();
        // built in one go, or vertex by vertex
        let a = if v % 2 == 0 {
            Path::from(&real)
        } else {
            real.iter().fold(Path::empty(), |q, v| q.append(*v))
        };
        let b = a.append(ids.v(v));
        format!("{{\"k\":\"ok\",\"a\":{},\"b\":{}}}", view(&a, &ids, n, &probe), view(&b, &ids, n, &probe))
    });
}

fn some_score(rng: &mut Rng) -> i64 {
    if rng.chance(8) {
        *rng.pick(&[-1000, -999, 998, 999, 1000])
    } else {
        rng.range(-2, 3)
    }
}

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    // every atom over two vertices, plain and negated, on every path of up to three vertices
    let mut atoms = vec![C::Cc];
    for v in 1..=2 {
        atoms.push(C::Cv(v));
        for w in 1..=2 {
            atoms.push(C::Ce(v, w));
        }
    }
    atoms.push(C::Ov(vec![]));
    atoms.push(C::Ov(vec![1]));
    atoms.push(C::Ov(vec![1, 2]));
    atoms.push(C::Ov(vec![2, 1]));
    atoms.push(C::Ov(vec![3, 1, 2]));
    for k in [999_999, 1_000_000] {
        atoms.push(C::MinL(k));
        atoms.push(C::MaxL(k));
    }
    for k in [-1000, -999, 999, 1000] {
        atoms.push(C::MinS(k));
        atoms.push(C::MaxS(k));
    }
    for k in 0..=4 {
        atoms.push(C::MinL(k));
        atoms.push(C::MaxL(k));
        atoms.push(C::MinS(k - 2));
        atoms.push(C::MaxS(k - 2));
    }
    let mut paths: Vec<Vec<usize>> = vec![];
    for len in 0..=3u32 {
        for i in 0..3usize.pow(len) {
            paths.push((0..len).map(|k| 1 + i / 3usize.pow(k) % 3).collect());
        }
    }
    let mut s = Sess::new("views");
    for p in &paths {
        observe(&mut s, &mut rng, 3, p);
    }
    s.write(&mut out);
    for k in 0..a.amount(200, 2000) {
        let mut s = Sess::new(&format!("view{}", k));
        for _ in 0..4 {
            let n = 2 + rng.below(8) as usize;
            let len = rng.below(12) as usize;
            let p = walk(&mut rng, n, len);
            observe(&mut s, &mut rng, n, &p);
        }
        let n = 40 + rng.below(60) as usize;
        let mut p: Vec<usize> = (1..=n).collect();
        rng.shuffle(&mut p);
        observe(&mut s, &mut rng, n, &p);
        s.write(&mut out);
    }
    for (k, c) in atoms.iter().enumerate() {
        let mut s = Sess::new(&format!("atom{}", k));
        for p in &paths {
            let sc = some_score(&mut rng);
            one(&mut s, &mut rng, 2, c, p, sc, 2);
            let sc = some_score(&mut rng);
            one(&mut s, &mut rng, 2, &C::Not(Box::new(c.clone())), p, sc, 2);
            let sc = some_score(&mut rng);
            one(&mut s, &mut rng, 2, &C::Not(Box::new(C::Not(Box::new(c.clone())))), p, sc, 2);
        }
        s.write(&mut out);
    }
    // every pair of atoms under every connective, negations thrown in
    for (k, c) in atoms.iter().enumerate() {
        let mut s = Sess::new(&format!("pair{}", k));
        for d in &atoms {
            for conn in 0..3 {
                let f = |rng: &mut Rng, x: &C| {
                    Box::new(if rng.chance(40) { C::Not(Box::new(x.clone())) } else { x.clone() })
                };
                for _ in 0..a.amount(2, 12) {
                    let (x, y) = (f(&mut rng, c), f(&mut rng, d));
                    let e = match conn {
                        0 => C::Or(x, y),
                        1 => C::And(x, y),
                        _ => C::Xor(x, y),
                    };
                    let e = if rng.chance(30) { C::Not(Box::new(e)) } else { e };
                    let p = rng.pick(&paths).clone();
                    let sc = some_score(&mut rng);
                    one(&mut s, &mut rng, 2, &e, &p, sc, 2);
                }
            }
        }
        s.write(&mut out);
    }
    // random trees on longer paths
    for k in 0..a.amount(900, 9000) {
        let mut s = Sess::new(&format!("tree{}", k));
        let n = 2 + rng.below(3) as usize;
        let g = Gen { n, lmax: 9, smin: -3, smax: 9, extreme: true };
        for _ in 0..10 {
            let depth = *rng.pick(&[1, 2, 3, 4, 4, 6]);
            let c = g.tree(&mut rng, depth);
            let len = rng.below(8) as usize;
            let p = walk(&mut rng, n, len);
            let sc = if rng.chance(10) { g.s(&mut rng) } else { rng.range(-3, 9) };
            one(&mut s, &mut rng, n, &c, &p, sc, if n <= 3 && depth < 6 { 3 } else { 2 });
        }
        s.write(&mut out);
    }
    // long paths over many vertices: mostly without repetition, or with one far back
    for k in 0..a.amount(120, 1500) {
        let mut s = Sess::new(&format!("long{}", k));
        let n = 20 + rng.below(if a.thorough { 280 } else { 100 }) as usize;
        for _ in 0..4 {
            let mut p: Vec<usize> = (1..=n).collect();
            rng.shuffle(&mut p);
            p.truncate(n / 2 + rng.below(n as u64 / 2) as usize);
            if rng.chance(40) {
                let i = rng.below(p.len() as u64) as usize;
                let v = p[i];
                let at = if rng.chance(50) { p.len() } else { rng.below(p.len() as u64) as usize };
                p.insert(at, v);
            }
            let g = Gen { n, lmax: 2 * p.len() as i64, smin: -3, smax: 9, extreme: true };
            let i = rng.below(p.len() as u64 - 1) as usize;
            let near = |rng: &mut Rng| match rng.below(9) {
                0 => C::Cv(*rng.pick(&p)),
                1 => C::Ce(p[i], p[i + 1]),
                2 => C::Ce(p[i + 1], p[i]),
                3 => C::Ce(p[p.len() - 2], p[p.len() - 1]),
                4 => C::Cc,
                5 => C::MinL(p.len() as i64 + rng.range(-1, 1)),
                6 => C::MaxL(p.len() as i64 + rng.range(-1, 1)),
                7 => {
                    // vertices in the order of the path, sometimes with two swapped
                    let mut q: Vec<usize> = vec![];
                    for v in &p {
                        if rng.chance(60) && !q.contains(v) {
                            q.push(*v);
                        }
                    }
                    if rng.chance(50) && q.len() > 1 {
                        let j = rng.below(q.len() as u64 - 1) as usize;
                        q.swap(j, j + 1);
                    }
                    C::Ov(q)
                }
                _ => g.atom(rng),
            };
            let x = near(&mut rng);
            let x = if rng.chance(40) { C::Not(Box::new(x)) } else { x };
            let y = near(&mut rng);
            let c = match rng.below(5) {
                0 => C::And(Box::new(x), Box::new(y)),
                1 => C::Or(Box::new(x), Box::new(y)),
                2 => C::Xor(Box::new(x), Box::new(y)),
                _ => x,
            };
            let sc = rng.range(-3, 9);
            one(&mut s, &mut rng, n, &c, &p, sc, 1);
        }
        s.write(&mut out);
    }
    out.finish();
}
