//! C10: A* shortest path (library)
use gc_core::path::Path;
use gc_core::search::a_star::{one_weighted_edge, shortest_path, zero_heuristic};
use gch::*;
use std::collections::HashMap;

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    let mut cs = corpus(&a, &mut rng, a.amount(250, 3000), a.amount(500, 4000), 9);
    cs.remove(0);
    for k in 0..a.amount(40, 400) {
        // ladders and dense dags: many paths of different lengths meet
        let n = 8 + rng.below(8) as usize;
        let d = *rng.pick(&[15, 35, 70]);
        let mut es = vec![];
        for x in 1..=n {
            for y in x + 1..=n {
                if rng.chance(d) {
                    es.push((x, y));
                }
            }
        }
        for _ in 0..rng.below(4) {
            es.push((1 + rng.below(n as u64) as usize, 1 + rng.below(n as u64) as usize));
        }
        es.sort();
        es.dedup();
        cs.push((format!("m{}", k), spec_of(&mut rng, n, &es)));
    }
    cs.extend(large(&mut rng, a.amount(60, 500), 12, 40));
    cs.extend(regular(&mut rng, &[65, 101]));
    // the same on sizes where the distances are certified by potentials
    let mut huge = regular(&mut rng, &[257, 1030]);
    huge.extend(large(&mut rng, a.amount(25, 250), 60, 400));
    for k in 0..a.amount(12, 120) {
        // a long chain with shortcuts that cost about as much as what they cut short
        let n = *rng.pick(&[20, 40, 70, 150, 300, 550]);
        let mut es: Vec<(usize, usize)> = (1..n).map(|i| (i, i + 1)).collect();
        es.push((1, n));
        for _ in 0..rng.below(12) {
            let (x, y) = (1 + rng.below(n as u64) as usize, 1 + rng.below(n as u64) as usize);
            es.push((x.min(y), x.max(y)));
        }
        es.sort();
        es.dedup();
        huge.push((format!("D{}", k), spec_of(&mut rng, n, &es)));
    }
    cs.extend(huge.into_iter().map(|(id, sp)| (format!("H{}", id), sp)));
    for (id, sp) in cs {
        let (vs, es) = sp.model();
        if vs.is_empty() {
            continue;
        }
        let g = sp.build();
        let ids = &sp.ids;
        let mut s = Sess::new(&id);
        s.event(sp.json());
        let scale: i64 = *rng.pick(&[1, 1, 1, 1 << 20, 1 << 40, 1 << 50]);
        let wmax = *rng.pick(&[1, 2, 5, 20]);
        let unit = rng.chance(25) && !id.starts_with("HD");
        let mut ws: Vec<((usize, usize), i64)> = vec![];
        for e in &es {
            let c = if id.starts_with("HD") { (e.1 - e.0) as i64 } else { 0 };
            ws.push((*e, if id.starts_with("HD") && c != 1 { (c + rng.range(-1, 3)).max(0) } else if c == 1 || unit { 1 } else { rng.range(0, wmax) }));
        }
        let w: HashMap<(usize, usize), i64> = ws.iter().cloned().collect();
        for st in starts(&mut rng, &vs, &es) {
            let scale = if unit { 1 } else { scale };
            let mode = rng.below(4);
            let mut hrng = Rng::new(rng.next());
            let mut ts = vs.clone();
            let mut desc = format!("\"op\":\"spall\",\"s\":{},\"w\":{}", st, wjson(&ws));
            if id.starts_with('H') {
                let d = distances(&ws, st);
                // the farthest ones and some others
                ts.sort_by_key(|v| d.get(v).map_or((-2, 0), |x| (-1, -x.1)));
                let keep: Vec<usize> = (0..4).map(|_| *rng.pick(&vs)).collect();
                ts = ts.iter().filter(|v| d.contains_key(v)).take(4).cloned().collect();
                ts.extend(keep);
                let pi = arr(d.iter().map(|(v, x)| format!("[{},{}]", v, x.0)));
                desc = format!("\"op\":\"spcert\",\"s\":{},\"w\":{},\"pi\":{}", st, wjson(&ws), pi);
            }
            let hs: Vec<HashMap<usize, i64>> =
                ts.iter().map(|t| consistent_heuristic(&mut hrng, &vs, &ws, *t, 500)).collect();
            s.call(&desc, || {
                let mut rs = vec![];
                for (t, h) in ts.iter().zip(&hs) {
                    let hv = |v: usize| -> i64 { h[&v] };
                    let cost = |_: &_, p: &Path| -> i64 {
                        p.vertices
                            .windows(2)
                            .map(|x| w[&(ids.r(x[0]), ids.r(x[1]))] * scale)
                            .sum()
                    };
                    let heur = |_: &_, p: &Path| -> i64 {
                        let v = ids.r(*p.vertices.last().unwrap());
                        hv(v) * scale
                    };
                    assert!(w.iter().all(|((x, y), c)| hv(*x) <= hv(*y) + c));
                    let r = if unit && mode == 0 {
                        shortest_path(&g, one_weighted_edge, zero_heuristic, ids.v(st), ids.v(*t))
                    } else {
                        shortest_path(&g, cost, heur, ids.v(st), ids.v(*t))
                    };
                    rs.push(match r {
                        None => format!("{{\"t\":{},\"k\":\"none\",\"p\":[],\"c\":0}}", t),
                        Some(sp) => format!(
                            "{{\"t\":{},\"k\":\"ok\",\"p\":{},\"c\":{}}}",
                            t,
                            ids.path(&sp.path.vertices),
                            unscale(sp.score, scale)
                        ),
                    });
                }
                format!("{{\"k\":\"ok\",\"m\":{}}}", arr(rs))
            });
        }
        s.write(&mut out);
    }
        out.finish();
}

/// weight of a cheapest path and number of edges of a longest among those, for every reachable vertex
fn distances(ws: &[((usize, usize), i64)], st: usize) -> HashMap<usize, (i64, i64)> {
    let mut d = HashMap::new();
    d.insert(st, (0, 0));
    let mut out: HashMap<usize, Vec<(usize, i64)>> = HashMap::new();
    for ((x, y), c) in ws {
        out.entry(*x).or_default().push((*y, *c));
    }
    let mut todo = std::collections::VecDeque::from([st]);
    while let Some(x) = todo.pop_front() {
        let (dx, nx): (i64, i64) = d[&x];
        for (y, c) in out.get(&x).into_iter().flatten() {
            if d.get(y).map_or(true, |o| dx + c < o.0) {
                d.insert(*y, (dx + c, nx + 1));
                todo.push_back(*y);
            }
        }
    }
    d
}
