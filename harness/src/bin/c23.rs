//! C23: cycle values
use gc_core::iter::iter_cycle::Cycle;
use gc_core::path::Path;
use gch::*;
use std::collections::HashSet;

fn make(ids: &Ids, q: &[usize], how: u64) -> Option<Cycle> {
    let vs: Vec<_> = q.iter().map(|v| ids.v(*v)).collect();
    if how == 0 {
        Cycle::from_vertices(&vs)
    } else {
        Cycle::from_path(&Path::from(&vs))
    }
}
fn list(ids: &Ids, c: &Cycle) -> String {
    arr(c.iter().map(|v| ids.r(*v)))
}

fn one(s: &mut Sess, ids: &Ids, q: &[usize], how: u64) {
    s.call(&format!("\"op\":\"cv\",\"q\":{},\"how\":{}", arr(q.iter()), how), || match make(ids, q, how) {
        None => "{\"k\":\"none\"}".to_string(),
        Some(c) => {
            let can = c.canonical();
            format!(
                "{{\"k\":\"ok\",\"it\":{},\"path\":{},\"len\":{},\"can\":{},\"can2\":{},\"is\":{},\"cis\":{}}}",
                list(ids, &c),
                ids.path(&c.as_path().vertices),
                c.len(),
                list(ids, &can),
                list(ids, &can.canonical()),
                c.is_canonical(),
                can.is_canonical()
            )
        }
    });
}

fn set(s: &mut Sess, ids: &Ids, qs: &[Vec<usize>], how: u64) {
    s.call(&format!("\"op\":\"cvset\",\"qs\":{}", arr(qs.iter().map(|q| arr(q.iter())))), || {
        let cs: Vec<Cycle> = qs.iter().map(|q| make(ids, q, how).expect("a cycle")).collect();
        let mut eq = vec![];
        let mut same = vec![];
        for i in 0..cs.len() {
            for j in 0..cs.len() {
                if cs[i] == cs[j] {
                    eq.push(format!("[{},{}]", i + 1, j + 1));
                }
                if cs[i].canonical() == cs[j].canonical() {
                    same.push(format!("[{},{}]", i + 1, j + 1));
                }
            }
        }
        let set: HashSet<Cycle> = cs.iter().map(|c| c.canonical()).collect();
        format!("{{\"k\":\"ok\",\"eq\":{},\"same\":{},\"n\":{}}}", arr(eq), arr(same), set.len())
    });
}

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    let text = a.input.as_ref().map_or(String::new(), |f| std::fs::read_to_string(f).expect("behaviours"));
    for (k, line) in text.lines().enumerate() {
        let q: Vec<usize> = line
            .split(|c: char| !c.is_ascii_digit())
            .filter(|x| !x.is_empty())
            .map(|x| x.parse().unwrap())
            .collect();
        let mut s = Sess::new(&format!("g{}", k));
        for how in 0..2 {
            let ids = Ids::gen(&mut rng, 4);
            one(&mut s, &ids, &q, how);
        }
        s.write(&mut out);
    }
    for k in 0..a.amount(600, 8000) {
        let mut s = Sess::new(&format!("r{}", k));
        let n = match rng.below(10) {
            0 => 60 + rng.below(90) as usize,
            1 => 15 + rng.below(40) as usize,
            _ => 2 + rng.below(9) as usize,
        };
        let ids = Ids::gen(&mut rng, n);
        let mut q: Vec<usize> = (1..=n).collect();
        rng.shuffle(&mut q);
        q.truncate(2 + rng.below(n as u64 - 1) as usize);
        let how = rng.below(2);
        one(&mut s, &ids, &q, how);
        let mut d = q.clone();
        let at = rng.below(d.len() as u64 + 1) as usize;
        let again = *rng.pick(&q);
        d.insert(at, again);
        one(&mut s, &ids, &d, how);
        // rotations, and lists that are not
        let mut qs = vec![q.clone()];
        for _ in 0..rng.below(5) + 1 {
            let mut r = rng.pick(&qs).clone();
            match rng.below(4) {
                0 => {
                    let (i, j) = (rng.below(r.len() as u64) as usize, rng.below(r.len() as u64) as usize);
                    r.swap(i, j);
                }
                1 => r.reverse(),
                2 if r.len() > 2 => {
                    r.remove(rng.below(r.len() as u64) as usize);
                }
                _ => {
                    let by = rng.below(r.len() as u64) as usize;
                    r.rotate_left(by);
                }
            }
            qs.push(r);
        }
        set(&mut s, &ids, &qs, how);
        s.write(&mut out);
    }
    out.finish();
}
