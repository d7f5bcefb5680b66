//! C13: constraint validation
use gc_core::constraint::checker::validate;
use gch::con::{list_json, Gen, C};
use gch::*;

fn one(s: &mut Sess, rng: &mut Rng, n: usize, cs: &[C]) {
    let ids = Ids::gen(rng, n);
    let scale = *rng.pick(&[1i64, 1, 1 << 40]);
    let real: Vec<_> = cs.iter().map(|c| c.real(&ids, scale)).collect();
    s.call(&format!("\"op\":\"val\",\"cs\":{}", list_json(cs)), || {
        format!("{{\"k\":\"ok\",\"b\":{}}}", validate(&real).is_ok())
    });
}

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    let mut tops: Vec<C> = vec![C::Cc];
    for v in 1..=3 {
        tops.push(C::Cv(v));
    }
    for (x, y) in [(1, 2), (2, 1), (2, 3), (1, 1)] {
        tops.push(C::Ce(x, y));
    }
    tops.push(C::Ov(vec![1, 2]));
    tops.push(C::Ov(vec![2, 1]));
    for k in [0, 1, 2, 999_999, 1_000_000] {
        tops.push(C::MinL(k));
        tops.push(C::MaxL(k));
    }
    for k in [-1000, -999, 999, 1000] {
        tops.push(C::MinS(k));
        tops.push(C::MaxS(k));
    }
    for k in 0..=2 {
        tops.push(C::MinS(k - 1));
        tops.push(C::MaxS(k - 1));
    }
    let n = tops.len();
    for i in 0..n {
        let c = tops[i].clone();
        tops.push(C::Not(Box::new(c)));
    }
    tops.push(C::Not(Box::new(C::Not(Box::new(C::Cv(1))))));
    tops.push(C::And(Box::new(C::Cv(1)), Box::new(C::MinL(2))));
    tops.push(C::Or(Box::new(C::Not(Box::new(C::Cv(1)))), Box::new(C::Cc)));
    tops.push(C::Xor(Box::new(C::Cc), Box::new(C::MaxL(1))));
    // all sets of up to two, in both orders
    let mut s = Sess::new("small");
    one(&mut s, &mut rng, 4, &[]);
    for c in &tops {
        one(&mut s, &mut rng, 4, &[c.clone()]);
    }
    s.write(&mut out);
    for (k, c) in tops.iter().enumerate() {
        let mut s = Sess::new(&format!("pair{}", k));
        for d in &tops {
            one(&mut s, &mut rng, 4, &[c.clone(), d.clone()]);
        }
        s.write(&mut out);
    }
    for k in 0..a.amount(600, 7000) {
        let mut s = Sess::new(&format!("r{}", k));
        let n = *rng.pick(&[4, 4, 6, 12]);
        let g = Gen { n, lmax: 5, smin: -3, smax: 5, extreme: true };
        let few = rng.chance(60);
        for _ in 0..20 {
            let len = 2 + rng.below(if few { 7 } else { 18 }) as usize;
            let mut cs: Vec<C> = vec![];
            let lean = rng.below(3);
            while cs.len() < len {
                let c = match rng.below(10) {
                    0..=3 => g.atom(&mut rng),
                    4..=6 => C::Not(Box::new(g.atom(&mut rng))),
                    7 => g.tree(&mut rng, 2),
                    _ => rng.pick(&tops).clone(),
                };
                // in half of the lists vertices are only required (or only excluded) so that
                // many constraints go together
                let c = match (lean, &c) {
                    (1, C::Not(x)) if matches!(**x, C::Cv(_)) && !rng.chance(5) => (**x).clone(),
                    (2, C::Cv(_) | C::Ce(_, _)) if !rng.chance(5) => C::Not(Box::new(c.clone())),
                    _ => c,
                };
                // mostly avoid duplicated bounds, which would decide everything
                let kind = |c: &C| std::mem::discriminant(c);
                let bound = matches!(c, C::MinL(_) | C::MaxL(_) | C::MinS(_) | C::MaxS(_));
                if bound && cs.iter().any(|d| kind(d) == kind(&c)) && !rng.chance(8) {
                    continue;
                }
                cs.push(c);
            }
            one(&mut s, &mut rng, n, &cs);
        }
        s.write(&mut out);
    }
    out.finish();
}
