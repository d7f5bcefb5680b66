//! C17: simple path enumeration and Hamiltonian paths
use gc_core::algorithm::hamiltonian::{first_path, is_hamiltonian, is_path_hamiltonian, iter_hamiltonian_paths};
use gc_core::iter::iter_breadth::bfs_path_iter_from;
use gc_core::iter::iter_depth::dfs_iter_path_from;
use gc_core::path::Path;
use gch::*;

fn count(adj: &Vec<Vec<usize>>, on: &mut Vec<bool>, v: usize, left: &mut i64) {
    *left -= 1;
    if *left < 0 {
        return;
    }
    on[v] = true;
    for &w in &adj[v] {
        if !on[w] {
            count(adj, on, w, left);
        }
    }
    on[v] = false;
}

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    let mut cs = corpus(&a, &mut rng, a.amount(250, 4000), a.amount(500, 4000), 8);
    cs.extend(large(&mut rng, a.amount(60, 500), 10, 40));
    cs.extend(regular(&mut rng, &[65, 101, 260]));
    for (id, sp) in cs {
        let (vs, es) = sp.model();
        let n = sp.ids.n();
        let mut adj = vec![vec![]; n + 1];
        for (x, y) in &es {
            adj[*x].push(*y);
        }
        let mut left = if id.starts_with('L') { 2000 } else { 700 };
        for v in &vs {
            count(&adj, &mut vec![false; n + 1], *v, &mut left);
        }
        if left < 0 {
            continue;
        }
        let g = sp.build();
        let ids = &sp.ids;
        let cap = 3000;
        let list = |ps: Vec<Path>| {
            format!("{{\"k\":\"ok\",\"ps\":{}}}", arr(ps.iter().map(|p| ids.path(&p.vertices))))
        };
        let mut s = Sess::new(&id);
        s.event(sp.json());
        for st in starts(&mut rng, &vs, &es) {
            let sv = ids.v(st);
            s.call(&format!("\"op\":\"bfsp\",\"s\":{}", st), || list(bfs_path_iter_from(&g, sv).take(cap).collect()));
            s.call(&format!("\"op\":\"dfsp\",\"s\":{}", st), || list(dfs_iter_path_from(&g, sv).take(cap).collect()));
        }
        s.call("\"op\":\"ham\"", || {
            let ps: Vec<Path> = iter_hamiltonian_paths(&g).take(cap).collect();
            format!(
                "{{\"k\":\"ok\",\"ps\":{},\"first\":{},\"is\":{}}}",
                arr(ps.iter().map(|p| ids.path(&p.vertices))),
                first_path(&g).map_or("[]".to_string(), |p| ids.path(&p.vertices)),
                is_hamiltonian(&g)
            )
        });
        // walks of the graph given to the path checker
        for _ in 0..2 {
            if vs.is_empty() {
                continue;
            }
            let mut p = vec![*rng.pick(&vs)];
            let len = 1 + rng.below(vs.len() as u64 + 2) as usize;
            while p.len() < len {
                let nx: Vec<usize> = adj[*p.last().unwrap()].clone();
                let fresh: Vec<usize> = nx.iter().filter(|v| !p.contains(v)).cloned().collect();
                if nx.is_empty() {
                    break;
                }
                p.push(if !fresh.is_empty() && rng.chance(80) { *rng.pick(&fresh) } else { *rng.pick(&nx) });
            }
            let real = Path::from(&p.iter().map(|v| ids.v(*v)).collect());
            s.call(&format!("\"op\":\"hamp\",\"p\":{}", arr(p.iter())), || {
                format!("{{\"k\":\"ok\",\"b\":{}}}", is_path_hamiltonian(&real, &g))
            });
        }
        s.write(&mut out);
    }
    out.finish();
}
