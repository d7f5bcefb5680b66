//! C07: topological sort and DAG test
use gc_core::algorithm::topo_sort::{is_dag, topological_sort, try_dag};
use gch::*;

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    let mut cs = corpus(&a, &mut rng, a.amount(600, 6000), a.amount(800, 6000), 12);
    // dense and deep dags, and the same with one edge closing a cycle
    for k in 0..a.amount(60, 600) {
        let n = 8 + rng.below(20) as usize;
        let mut perm: Vec<usize> = (1..=n).collect();
        rng.shuffle(&mut perm);
        let d = *rng.pick(&[10, 40, 90]);
        let mut es = vec![];
        for i in 0..n {
            for j in i + 1..n {
                if rng.chance(d) || j == i + 1 && rng.chance(70) {
                    es.push((perm[i], perm[j]));
                }
            }
        }
        if rng.chance(50) {
            let i = rng.below(n as u64) as usize;
            let j = rng.below(i as u64 + 1) as usize;
            es.push((perm[i], perm[j]));
        }
        cs.push((format!("d{}", k), spec_of(&mut rng, n, &es)));
    }
    cs.extend(large(&mut rng, a.amount(80, 800), 30, 150));
    cs.extend(regular(&mut rng, &[257, 300, 1030]));
    for (id, sp) in cs {
        let g = sp.build();
        let mut s = Sess::new(&id);
        s.event(sp.json());
        s.call("\"op\":\"topo\"", || {
            let t = topological_sort(&g);
            let d = is_dag(&g);
            let t2 = try_dag(&g).map_or(false, |d| d.as_graph() as *const _ == &g as *const _);
            match t {
                Some(p) => format!("{{\"k\":\"ok\",\"p\":{},\"d\":{},\"t\":{}}}", sp.ids.path(&p), d, t2),
                None => format!("{{\"k\":\"none\",\"p\":[],\"d\":{},\"t\":{}}}", d, t2),
            }
        });
        s.write(&mut out);
    }
    out.finish();
}
