//! C14: DAG shortest / longest paths, Bellman-Ford, SPFA
use gc_core::algorithm::longest_path::{dag_longest_path, dag_longest_paths};
use gc_core::algorithm::shortest_path::{bellman_ford, dag_shortest_path, dag_shortest_paths, spfa};
use gc_core::algorithm::topo_sort::try_dag;
use gc_core::graph::{Edge, VertexId};
use gc_core::path::ScoredPath;
use gch::*;
use std::collections::HashMap;

fn table(ids: &Ids, m: HashMap<VertexId, ScoredPath>, scale: i64) -> String {
    format!(
        "{{\"k\":\"ok\",\"es\":{}}}",
        arr(m.iter().map(|(v, sp)| format!(
            "[{},{},{}]",
            ids.r(*v),
            unscale(sp.score, scale),
            ids.path(&sp.path.vertices)
        )))
    )
}

fn one(ids: &Ids, r: Option<ScoredPath>, scale: i64) -> String {
    match r {
        None => "{\"k\":\"none\",\"p\":[],\"c\":0}".to_string(),
        Some(sp) => format!(
            "{{\"k\":\"ok\",\"p\":{},\"c\":{}}}",
            ids.path(&sp.path.vertices),
            unscale(sp.score, scale)
        ),
    }
}

/// is a negative cycle reachable from s? (only to leave SPFA, which would not end, out)
fn neg_from(n: usize, ws: &[((usize, usize), i64)], s: usize) -> bool {
    let mut d = vec![None; n + 1];
    d[s] = Some(0i64);
    for _ in 0..=n {
        let mut ch = false;
        for ((x, y), c) in ws {
            if let Some(dx) = d[*x] {
                if d[*y].map_or(true, |o| dx + c < o) {
                    d[*y] = Some(dx + c);
                    ch = true;
                }
            }
        }
        if !ch {
            return false;
        }
    }
    true
}

fn acyclic(n: usize, es: &[(usize, usize)]) -> bool {
    let mut live: Vec<bool> = vec![true; n + 1];
    loop {
        let mut ch = false;
        for v in 1..=n {
            if live[v] && !es.iter().any(|(a, b)| *a == v && live[*b]) {
                live[v] = false;
                ch = true;
            }
        }
        if !ch {
            return live[1..].iter().all(|x| !x);
        }
    }
}

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    let mut cs = corpus(&a, &mut rng, a.amount(200, 3000), a.amount(500, 4000), 9);
    cs.remove(0);
    for k in 0..a.amount(200, 2000) {
        let n = 4 + rng.below(8) as usize;
        let mut perm: Vec<usize> = (1..=n).collect();
        rng.shuffle(&mut perm);
        let d = *rng.pick(&[20, 50, 80]);
        let mut es = vec![];
        for i in 0..n {
            for j in i + 1..n {
                if rng.chance(d) {
                    es.push((perm[i], perm[j]));
                }
            }
        }
        cs.push((format!("d{}", k), spec_of(&mut rng, n, &es)));
    }
    cs.extend(large(&mut rng, a.amount(80, 800), 12, 50));
    cs.extend(regular(&mut rng, &[65, 101, 260]));
    for (id, sp) in cs {
        let (vs, es) = sp.model();
        if vs.is_empty() {
            continue;
        }
        let n = sp.ids.n();
        let g = sp.build();
        let ids = &sp.ids;
        let mut s = Sess::new(&id);
        s.event(sp.json());
        let scale: i64 = *rng.pick(&[1, 1, 1, 1 << 20, 1 << 40, 1 << 51]);
        // potentials make negative weights without negative cycles; plain negatives may have some
        let style = rng.below(4);
        let pot: Vec<i64> = (0..=n).map(|_| rng.range(-9, 9)).collect();
        let mut ws: Vec<((usize, usize), i64)> = vec![];
        for (x, y) in &es {
            let w = match style {
                0 => rng.range(0, 9),
                1 => rng.range(-6, 9),
                2 => rng.range(0, 3) + pot[*y] - pot[*x],
                _ => pot[*y] - pot[*x], // all cycles have weight zero
            };
            ws.push(((*x, *y), w));
        }
        let w: HashMap<(usize, usize), i64> = ws.iter().cloned().collect();
        let f = |e: &Edge| -> i64 { w[&(ids.r(e.0), ids.r(e.1))] * scale };
        for st in starts(&mut rng, &vs, &es) {
            let sv = ids.v(st);
            let d = |alg: &str| format!("\"op\":\"sssp\",\"alg\":\"{}\",\"s\":{},\"w\":{}", alg, st, wjson(&ws));
            s.call(&d("bf"), || match bellman_ford(&g, f, sv) {
                None => "{\"k\":\"neg\",\"es\":[]}".to_string(),
                Some(m) => table(ids, m, scale),
            });
            if !neg_from(n, &ws, st) {
                s.call(&d("spfa"), || table(ids, spfa(&g, f, sv), scale));
            }
            if acyclic(n, &es) {
                // the graph is acyclic: refusing to mark it is a violation too
                let dag = || try_dag(&g).expect("acyclic");
                s.call(&d("dag"), || table(ids, dag_shortest_paths(dag(), f, sv), scale));
                s.call(&d("long"), || table(ids, dag_longest_paths(dag(), f, sv), scale));
                let t = *rng.pick(&vs);
                let d1 = |alg: &str| {
                    format!("\"op\":\"sssp1\",\"alg\":\"{}\",\"s\":{},\"t\":{},\"w\":{}", alg, st, t, wjson(&ws))
                };
                s.call(&d1("dag"), || one(ids, dag_shortest_path(dag(), f, sv, ids.v(t)), scale));
                s.call(&d1("long"), || one(ids, dag_longest_path(dag(), f, sv, ids.v(t)), scale));
            }
        }
        s.write(&mut out);
    }
    out.finish();
}
