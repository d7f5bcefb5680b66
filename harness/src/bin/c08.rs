//! C08: cycle enumeration (library)
use gc_core::algorithm::cycle;
use gc_core::iter::iter_cycle::{cycle_iter, Cycle};
use gch::*;

fn cy(ids: &Ids, c: &Cycle) -> String {
    let v: Vec<usize> = c.iter().map(|v| ids.r(*v)).collect();
    if c.len() != v.len() || c.as_path().vertices.len() != v.len() || !c.is_canonical() {
        return "[9999]".to_string();
    }
    arr(v)
}
fn opt(ids: &Ids, c: Option<Cycle>) -> String {
    c.map_or("[]".to_string(), |c| cy(ids, &c))
}

/// a rough count, to leave out graphs with too many cycles
fn paths(adj: &Vec<Vec<usize>>, on: &mut Vec<bool>, v: usize, left: &mut i64) {
    *left -= 1;
    if *left < 0 {
        return;
    }
    on[v] = true;
    for &w in &adj[v] {
        if !on[w] {
            paths(adj, on, w, left);
        }
    }
    on[v] = false;
}

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    let mut cs = corpus(&a, &mut rng, a.amount(500, 6000), a.amount(700, 6000), 8);
    for k in 0..a.amount(60, 500) {
        // sparse larger graphs in which every vertex has an inbound edge
        let n = 6 + rng.below(8) as usize;
        let mut es: Vec<(usize, usize)> = (1..=n).map(|i| (1 + rng.below(n as u64) as usize, i)).collect();
        for _ in 0..rng.below(5) {
            es.push((1 + rng.below(n as u64) as usize, 1 + rng.below(n as u64) as usize));
        }
        es.sort();
        es.dedup();
        cs.push((format!("b{}", k), spec_of(&mut rng, n, &es)));
    }
    cs.extend(large(&mut rng, a.amount(80, 800), 12, 50));
    cs.extend(regular(&mut rng, &[65, 101, 130, 260]));
    for (id, sp) in cs {
        let (vs, es) = sp.model();
        let n = sp.ids.n();
        let mut adj = vec![vec![]; n + 1];
        for (x, y) in &es {
            adj[*x].push(*y);
        }
        let mut left = if id.starts_with('L') { 10000 } else { 3000 };
        for v in &vs {
            paths(&adj, &mut vec![false; n + 1], *v, &mut left);
        }
        if left < 0 {
            continue;
        }
        let g = sp.build();
        let ids = &sp.ids;
        let mut s = Sess::new(&id);
        s.event(sp.json());
        let cap = 5000;
        let take = rng.below(5) as usize;
        s.call("\"op\":\"cycles\"", || {
            let all: Vec<Cycle> = cycle_iter(&g).take(cap).collect();
            if all.len() == cap {
                return "{\"k\":\"endless\"}".to_string();
            }
            format!(
                "{{\"k\":\"ok\",\"all\":{},\"first\":{},\"count\":{},\"n\":{},\"take\":{},\"takeall\":{},\"girth\":{},\"short\":{},\"long\":{},\"ham\":{}}}",
                arr(all.iter().map(|c| cy(ids, c))),
                opt(ids, cycle::first(&g)),
                cycle::count(&g),
                take,
                arr(cycle::take(&g, take).iter().map(|c| cy(ids, c))),
                arr(cycle::take_all(&g).iter().map(|c| cy(ids, c))),
                cycle::girth(&g).unwrap_or(0),
                opt(ids, cycle::shortest(&g)),
                opt(ids, cycle::longest(&g)),
                opt(ids, cycle::hamiltonian(&g)),
            )
        });
        s.write(&mut out);
    }
    out.finish();
}
