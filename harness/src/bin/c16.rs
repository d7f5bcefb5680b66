//! C16: traversals
use gc_core::iter::iter_best::best_iter_from;
use gc_core::iter::iter_breadth::{bfs_iter, bfs_iter_from};
use gc_core::iter::iter_depth::{dfs_iter, dfs_iter_from};
use gc_core::path::Path;
use gch::*;
use std::collections::HashMap;

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    let mut cs = corpus(&a, &mut rng, a.amount(300, 4000), a.amount(500, 4000), 10);
    cs.extend(large(&mut rng, a.amount(80, 800), 20, 90));
    cs.extend(regular(&mut rng, &[70, 130, 260]));
    let deep = *rng.pick(&[530, 600, 700]);
    cs.extend(regular(&mut rng, &[deep]).into_iter().filter(|c| c.0.starts_with("Lchain")));
    cs.extend(regular(&mut rng, &[1030]).into_iter().filter(|c| !c.0.starts_with("Lring") && !c.0.starts_with("Lchain")));
    for (id, sp) in cs {
        let (vs, es) = sp.model();
        let g = sp.build();
        let ids = &sp.ids;
        let cap = vs.len() + 3;
        let mut s = Sess::new(&id);
        s.event(sp.json());
        let ok = |p: Vec<_>| format!("{{\"k\":\"ok\",\"p\":{}}}", ids.path(&p));
        s.call("\"op\":\"bfs\",\"s\":0", || ok(bfs_iter(&g).take(cap).collect()));
        s.call("\"op\":\"dfs\",\"s\":0", || ok(dfs_iter(&g).take(cap).collect()));
        for st in starts(&mut rng, &vs, &es).into_iter().take(if vs.len() > 500 { 1 } else { vs.len() }) {
            let sv = ids.v(st);
            s.call(&format!("\"op\":\"bfs\",\"s\":{}", st), || ok(bfs_iter_from(&g, sv).take(cap).collect()));
            s.call(&format!("\"op\":\"dfs\",\"s\":{}", st), || ok(dfs_iter_from(&g, sv).take(cap).collect()));
            // best first
            let scale: i64 = *rng.pick(&[1, 1, 1 << 40]);
            let style = rng.below(4);
            let ws: Vec<((usize, usize), i64)> = es
                .iter()
                .map(|e| {
                    let w = match style {
                        0 => 1,
                        1 => rng.range(0, 9),
                        2 => rng.range(1, 3),
                        _ => rng.range(-4, 5),
                    };
                    (*e, w)
                })
                .collect();
            let w: HashMap<(usize, usize), i64> = ws.iter().cloned().collect();
            let last = rng.chance(25);
            let lab: Vec<i64> = (1..=ids.n()).map(|v| if rng.chance(60) { v as i64 } else { rng.range(-5, 5) }).collect();
            let score = |_: &_, p: &Path| -> i64 {
                if last {
                    lab[ids.r(*p.vertices.last().unwrap()) - 1] * scale
                } else {
                    p.vertices.windows(2).map(|x| w[&(ids.r(x[0]), ids.r(x[1]))] * scale).sum()
                }
            };
            let desc = format!(
                "\"op\":\"best\",\"s\":{},\"kind\":\"{}\",\"w\":{},\"lab\":{}",
                st,
                if last { "last" } else { "sum" },
                wjson(&ws),
                arr(lab.iter())
            );
            s.call(&desc, || {
                format!(
                    "{{\"k\":\"ok\",\"es\":{}}}",
                    arr(best_iter_from(&g, score, sv)
                        .take(cap)
                        .map(|sp| format!("[{},{}]", ids.path(&sp.path.vertices), unscale(sp.score, scale))))
                )
            });
        }
        s.write(&mut out);
    }
    out.finish();
}
