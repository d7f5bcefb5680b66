//! C15: max flow
use gc_core::algorithm::max_flow::max_flow;
use gc_core::graph::Edge;
use gch::*;
use std::collections::HashMap;

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    let mut cs = corpus(&a, &mut rng, a.amount(500, 5000), a.amount(500, 4000), 7);
    cs.remove(0);
    for k in 0..a.amount(200, 2500) {
        // layered networks with cross edges: flow has to be pushed back
        let layers = 2 + rng.below(3) as usize;
        let width = 2 + rng.below(2) as usize;
        let n = layers * width + 2;
        let mut es = vec![];
        let at = |l: usize, i: usize| 2 + l * width + i;
        for i in 0..width {
            if rng.chance(80) {
                es.push((1, at(0, i)));
            }
            if rng.chance(80) {
                es.push((at(layers - 1, i), n));
            }
            for l in 0..layers {
                for j in 0..width {
                    if l + 1 < layers && rng.chance(50) {
                        es.push((at(l, i), at(l + 1, j)));
                    }
                    if i != j && rng.chance(20) {
                        es.push((at(l, i), at(l, j)));
                    }
                    if l > 0 && rng.chance(15) {
                        es.push((at(l, i), at(l - 1, j)));
                    }
                }
            }
        }
        es.sort();
        es.dedup();
        cs.push((format!("l{}", k), spec_of(&mut rng, n, &es)));
    }
    for k in 0..a.amount(500, 5000) {
        // paths of different lengths between source (1) and sink (n) with shortcuts across
        // them, many edges also reversed: the shortest augmenting paths have to be undone
        let npaths = 2 + rng.below(2) as usize;
        let mut paths: Vec<Vec<usize>> = vec![];
        let mut next = 2;
        for _ in 0..npaths {
            let len = 1 + rng.below(4) as usize;
            paths.push((next..next + len).collect());
            next += len;
        }
        let n = next;
        let mut es = vec![];
        for p in &paths {
            let mut x = 1;
            for y in p {
                es.push((x, *y));
                x = *y;
            }
            es.push((x, n));
        }
        for _ in 0..1 + rng.below(4) {
            let (p, q) = (rng.pick(&paths).clone(), rng.pick(&paths).clone());
            es.push((*rng.pick(&p), *rng.pick(&q)));
        }
        let rev = *rng.pick(&[0, 30, 70]);
        for (x, y) in es.clone() {
            if rng.chance(rev) {
                es.push((y, x));
            }
        }
        es.sort();
        es.dedup();
        cs.push((format!("l{}p", k), spec_of(&mut rng, n, &es)));
    }
    for k in 0..a.amount(14, 140) {
        // long chains side by side, with a bridge from the middle of one to that of another; and
        // many short paths: stars out of the source and into the sink
        let mut es: Vec<(usize, usize)> = vec![];
        let n = if k % 2 == 0 {
            let len = 2 + *rng.pick(&[30, 68, 140, 300]) as usize;
            let chains = 1 + rng.below(3) as usize;
            let n = chains * len + 2;
            for c in 0..chains {
                let at = |i: usize| 2 + c * len + i;
                es.push((1, at(0)));
                es.extend((1..len).map(|i| (at(i - 1), at(i))));
                es.push((at(len - 1), n));
                if c > 0 {
                    es.push((at(len / 2 - 1) - len, at(len / 2)));
                }
            }
            n
        } else {
            let n = 2 + *rng.pick(&[40, 70, 130, 260]) as usize;
            for v in 2..n {
                es.push((1, v));
                es.push((v, n));
            }
            n
        };
        if k % 4 == 0 && n < 200 {
            es.extend(es.clone().iter().take(10).map(|e| (e.1, e.0)));
        }
        es.sort();
        es.dedup();
        let mut sp = spec_of(&mut rng, n, &es);
        if n > 200 {
            sp.ids = Ids::from((0..n as u64).map(|x| x * 3).collect());
        }
        cs.push((format!("l{}c", k), sp));
    }
    for (id, sp) in cs {
        let (vs, es) = sp.model();
        if vs.len() < 2 {
            continue;
        }
        let g = sp.build();
        let ids = &sp.ids;
        let mut s = Sess::new(&id);
        s.event(sp.json());
        let layered = id.starts_with('l');
        for q in 0..(if layered { 2 } else { 2 }) {
            let cmax = *rng.pick(&[1, 3, 10, 0]);
            let zero = *rng.pick(&[0, 0, 25]);
            let caps: Vec<((usize, usize), i64)> = es
                .iter()
                .map(|e| (*e, if rng.chance(zero) { 0 } else if cmax > 0 { rng.range(1, cmax) } else { *rng.pick(&[1, 1, 2, 9]) }))
                .collect();
            // the largest scale for which the sum of all capacities stays in 64 bits
            let total: u64 = 1 + caps.iter().map(|c| c.1 as u64).sum::<u64>();
            let top = 1u64 << (63 - (64 - total.leading_zeros() as u64));
            let scale: u64 = *rng.pick(&[1, 1, 1, 1 << 20, 1 << 32, top, top]);
            let c: HashMap<(usize, usize), i64> = caps.iter().cloned().collect();
            let mut st = *rng.pick(&vs);
            let mut t = *rng.pick(&vs);
            if layered && q == 0 {
                st = 1;
                t = ids.n();
            }
            if st == t {
                continue;
            }
            let desc = format!("\"op\":\"flow\",\"s\":{},\"t\":{},\"cap\":{}", st, t, wjson(&caps));
            let un = |x: u64| -> i64 {
                if x % scale == 0 && x / scale < 900_000_000 {
                    (x / scale) as i64
                } else {
                    777_777_777
                }
            };
            s.call(&desc, || {
                let cap = |e: &Edge| c[&(ids.r(e.0), ids.r(e.1))] as u64 * scale;
                let (v, f) = max_flow(&g, cap, ids.v(st), ids.v(t));
                format!(
                    "{{\"k\":\"ok\",\"v\":{},\"f\":{}}}",
                    un(v),
                    arr(f.iter().map(|(e, (x, c))| format!("[{},{},{},{}]", ids.r(e.0), ids.r(e.1), un(*x), un(*c))))
                )
            });
        }
        s.write(&mut out);
    }
    out.finish();
}
