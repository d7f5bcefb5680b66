//! C26: the constrained best-first iterator
use gc_core::iter::iter_best_constraint::constrained_best_iter_from;
use gc_core::path::Path;
use gch::con::{list_json, Gen, C};
use gch::*;
use std::collections::HashMap;

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    let mut cs = corpus(&a, &mut rng, a.amount(100, 1500), a.amount(500, 6000), 6);
    cs.remove(0);
    cs.extend(large(&mut rng, a.amount(60, 600), 10, 30));
    cs.extend(regular(&mut rng, &[20, 33, 150, 600]));
    for (id, sp) in cs {
        let (vs, es) = sp.model();
        if vs.is_empty() {
            continue;
        }
        let n = sp.ids.n();
        let g = sp.build();
        let ids = &sp.ids;
        let mut s = Sess::new(&id);
        s.event(sp.json());
        for _ in 0..2 {
            let wmin = *rng.pick(&[0, 1, 1]);
            let wmax = *rng.pick(&[1, 2, 4]);
            let ws: Vec<((usize, usize), i64)> = es.iter().map(|e| (*e, rng.range(wmin, wmax))).collect();
            let w: HashMap<(usize, usize), i64> = ws.iter().cloned().collect();
            let mut adj: HashMap<usize, Vec<usize>> = HashMap::new();
            for ((x, y), _) in &ws {
                adj.entry(*x).or_default().push(*y);
            }
            let big = n >= 100;
            let st = if big { starts(&mut rng, &vs, &es)[0] } else { *rng.pick(&vs) };
            let (most, longest) = if big { (1300, 160) } else { (150, 12) };
            // how long walks may be so that the specification can enumerate them
            let (mut b, mut layer, mut all) = (1i64, vec![st], 1usize);
            loop {
                let next: Vec<usize> = layer.iter().flat_map(|v| adj.get(v).cloned().unwrap_or_default()).collect();
                all += next.len();
                if next.is_empty() || all > most || b >= longest {
                    break;
                }
                layer = next;
                b += 1;
            }
            let gen = Gen { n, lmax: b, smin: 0, smax: b * wmax, extreme: false };
            let mut cons: Vec<C> = vec![];
            for _ in 0..rng.below(if big { 2 } else { 4 }) {
                cons.push(match rng.below(8) {
                    0..=2 => gen.atom(&mut rng),
                    3 => C::Not(Box::new(gen.atom(&mut rng))),
                    4 => gen.tree(&mut rng, 2),
                    5 if !es.is_empty() => {
                        let (x, y) = *rng.pick(&es);
                        C::Ce(x, y)
                    }
                    6 => C::Cv(*rng.pick(&vs)),
                    _ => C::Not(Box::new(C::Cc)),
                });
            }
            // most of them end
            if rng.chance(70) {
                let at = rng.below(cons.len() as u64 + 1) as usize;
                cons.insert(at, C::MaxL(rng.range(1, b)));
            }
            let scale: i64 = *rng.pick(&[1, 1, 1 << 40]);
            let take = if big { 700 } else { *rng.pick(&[1usize, 5, 20, 160, 160, 160]) };
            let real: Vec<_> = cons.iter().map(|c| c.real(ids, scale)).collect();
            let cost = |_: &_, p: &Path| -> i64 { p.vertices.windows(2).map(|x| w[&(ids.r(x[0]), ids.r(x[1]))] * scale).sum() };
            let desc = format!("\"op\":\"walks\",\"s\":{},\"w\":{},\"b\":{},\"cs\":{}", st, wjson(&ws), b, list_json(&cons));
            s.call(&desc, || {
                let mut it = constrained_best_iter_from(&g, cost, real, ids.v(st));
                let mut seen: HashMap<Vec<usize>, usize> = HashMap::new();
                let (mut items, mut par, mut done) = (vec![], vec![], false);
                for i in 1..=take + 1 {
                    match it.next() {
                        None => {
                            done = it.next().is_none();
                            break;
                        }
                        Some(_) if i > take => break,
                        Some(x) => {
                            let p: Vec<usize> = x.path.vertices.iter().map(|v| ids.r(*v)).collect();
                            let up = if p.is_empty() { 0 } else { *seen.get(&p[..p.len() - 1]).unwrap_or(&0) };
                            par.push(up);
                            items.push(format!("{{\"p\":{},\"c\":{}}}", ids.path(&x.path.vertices), unscale(x.score, scale)));
                            seen.insert(p, i);
                        }
                    }
                }
                format!("{{\"k\":\"ok\",\"ws\":[{}],\"par\":{},\"done\":{}}}", items.join(","), arr(par.iter()), done)
            });
        }
        s.write(&mut out);
    }
    out.finish();
}
