//! C11: constrained shortest path (library)
use gc_core::path::Path;
use gc_core::search::a_star::{constrained_shortest_path, one_weighted_edge, zero_heuristic};
use gch::con::{list_json, Gen, C};
use gch::*;
use std::cell::Cell;
use std::cmp::Reverse;
use std::collections::{BinaryHeap, HashMap};

enum Brute {
    Found,
    None,
    Unknown,
}

/// Plain enumeration of walks by cost, to know that an instance is small enough
fn brute(adj: &HashMap<usize, Vec<(usize, i64)>>, s: usize, t: usize, cs: &[C], mut left: i64) -> Brute {
    let mut q = BinaryHeap::new();
    q.push(Reverse((0i64, vec![s])));
    let bound: Vec<&C> = cs.iter().filter(|c| c.bounding()).collect();
    while let Some(Reverse((c, p))) = q.pop() {
        left -= 1;
        if left < 0 {
            return Brute::Unknown;
        }
        let last = *p.last().unwrap();
        if last == t && cs.iter().all(|x| x.holds(&p, c)) {
            return Brute::Found;
        }
        for (w, cost) in adj.get(&last).unwrap_or(&vec![]) {
            let mut np = p.clone();
            np.push(*w);
            if bound.iter().all(|x| x.holds(&np, c + cost)) {
                q.push(Reverse((c + cost, np)));
            }
        }
    }
    Brute::None
}

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    let mut cs = corpus(&a, &mut rng, a.amount(150, 2000), a.amount(900, 8000), 6);
    cs.remove(0);
    cs.extend(large(&mut rng, a.amount(250, 2500), 10, 40));
    cs.extend(regular(&mut rng, &[20, 33, 70, 130]));
    let mut unsat = 0;
    for (id, sp) in cs {
        let (vs, es) = sp.model();
        if vs.is_empty() {
            continue;
        }
        let n = sp.ids.n();
        let g = sp.build();
        let ids = &sp.ids;
        let mut s = Sess::new(&id);
        s.event(sp.json());
        for _ in 0..2 {
            let unit = rng.chance(40);
            let wmax = *rng.pick(&[1, 2, 4]);
            let ws: Vec<((usize, usize), i64)> =
                es.iter().map(|e| (*e, if unit { 1 } else { rng.range(1, wmax) })).collect();
            let w: HashMap<(usize, usize), i64> = ws.iter().cloned().collect();
            let mut adj: HashMap<usize, Vec<(usize, i64)>> = HashMap::new();
            for ((x, y), c) in &ws {
                adj.entry(*x).or_default().push((*y, *c));
            }
            let st = *rng.pick(&vs);
            // prefer a target that can be reached
            let mut reach = vec![st];
            let mut i = 0;
            while i < reach.len() {
                for (y, _) in adj.get(&reach[i]).unwrap_or(&vec![]) {
                    if !reach.contains(y) {
                        reach.push(*y);
                    }
                }
                i += 1;
            }
            let t = if rng.chance(90) { *rng.pick(&reach) } else { *rng.pick(&vs) };
            let big = n >= 10;
            let k = if big { 2 * n as i64 } else { 6 };
            let gen = Gen { n, lmax: k, smin: 0, smax: k + 1, extreme: false };
            let mut cons: Vec<C> = vec![];
            for _ in 0..rng.below(5) {
                let c = match rng.below(if big { 24 } else { 12 }) {
                    0..=3 => gen.atom(&mut rng),
                    4 | 5 => C::Not(Box::new(gen.atom(&mut rng))),
                    6 | 7 => gen.tree(&mut rng, 2),
                    8 => C::Cv(*rng.pick(&reach)),
                    9 if !es.is_empty() => {
                        let (x, y) = *rng.pick(&es);
                        C::Ce(x, y)
                    }
                    10 => C::Cc,
                    12..=14 => C::Cv(*rng.pick(&reach)),
                    15..=17 => {
                        // an order that a walk from the start may well keep
                        let mut ix: Vec<usize> = (0..reach.len()).collect();
                        rng.shuffle(&mut ix);
                        ix.truncate(1 + rng.below(7) as usize);
                        if rng.chance(75) {
                            ix.sort();
                        }
                        C::Ov(ix.iter().map(|i| reach[*i]).collect())
                    }
                    18 | 19 if !es.is_empty() => {
                        let (x, y) = *rng.pick(&es);
                        C::Ce(x, y)
                    }
                    20 | 21 => C::Not(Box::new(C::Cv(*rng.pick(&vs)))),
                    22 => C::MinL(gen.l(&mut rng)),
                    23 => C::MinS(gen.s(&mut rng)),
                    _ => C::Not(Box::new(C::Cc)),
                };
                cons.push(c);
            }
            let known = brute(&adj, st, t, &cons, 3000);
            let budget: i64 = match known {
                Brute::Unknown => {
                    // unsatisfiable or too expensive to find out: a few that are clearly unsatisfiable
                    // and unbounded are kept for the known finding
                    let clearly = !reach.contains(&t)
                        || cons.iter().any(|c| matches!(c, C::Cv(v) if !reach.contains(v)));
                    unsat += 1;
                    if !clearly || unsat % 8 != 0 {
                        continue;
                    }
                    3000
                }
                _ => 400_000,
            };
            let scale: i64 = if unit { 1 } else { *rng.pick(&[1, 1, 1 << 40]) };
            let hmode = rng.below(4);
            let h = consistent_heuristic(&mut rng, &vs, &ws, t, 300);
            let calls = Cell::new(0i64);
            let tick = || {
                calls.set(calls.get() + 1);
                if calls.get() > budget {
                    Budget::panic()
                }
            };
            let cost = |_: &_, p: &Path| -> i64 {
                tick();
                p.vertices.windows(2).map(|x| w[&(ids.r(x[0]), ids.r(x[1]))] * scale).sum()
            };
            let heur = |_: &_, p: &Path| -> i64 {
                let v = ids.r(*p.vertices.last().unwrap());
                if hmode == 0 { 0 } else { h[&v] * scale }
            };
            let real: Vec<_> = cons.iter().map(|c| c.real(ids, scale)).collect();
            let desc = format!(
                "\"op\":\"csp\",\"s\":{},\"t\":{},\"w\":{},\"cs\":{}",
                st,
                t,
                if unit { "[]".to_string() } else { wjson(&ws) },
                list_json(&cons)
            );
            s.call(&desc, || {
                let r = with_budget(|| {
                    if unit && hmode == 0 && !matches!(known, Brute::Unknown) {
                        constrained_shortest_path(&g, one_weighted_edge, zero_heuristic, ids.v(st), ids.v(t), real)
                    } else {
                        constrained_shortest_path(&g, cost, heur, ids.v(st), ids.v(t), real)
                    }
                });
                match r {
                    Err(()) => "{\"k\":\"budget\",\"p\":[],\"c\":0}".to_string(),
                    Ok(None) => "{\"k\":\"none\",\"p\":[],\"c\":0}".to_string(),
                    Ok(Some(sp)) => format!(
                        "{{\"k\":\"ok\",\"p\":{},\"c\":{}}}",
                        ids.path(&sp.path.vertices),
                        unscale(sp.score, scale)
                    ),
                }
            });
        }
        s.write(&mut out);
    }
    out.finish();
}
