//! C21: search containers
use gc_core::graph::VertexId;
use gc_core::iter::iter_datastructure::{MaxPriorityQueue, MinPriorityQueue, Queue, SearchQueue, Stack};
use gc_core::path::{Path, ScoredPath};
use gch::*;

/// x > 0: push priority x; 0: pop
fn run<T: Clone, Q: SearchQueue<T>>(
    out: &mut Out,
    id: &str,
    kind: &str,
    mut c: Q,
    ops: &[i64],
    enc: &dyn Fn(i64, usize) -> T,
    dec: &dyn Fn(&T) -> String,
    drain: bool,
) {
    let mut s = Sess::new(id);
    s.event(format!("{{\"op\":\"new\",\"kind\":\"{}\"}}", kind));
    let mut live = 0;
    let pop = |s: &mut Sess, c: &mut Q| {
        s.call("\"op\":\"pop\"", || match c.pop() {
            None => "{\"k\":\"none\"}".to_string(),
            Some(x) => format!("{{\"k\":\"some\",\"x\":{}}}", dec(&x)),
        })
    };
    for (i, x) in ops.iter().enumerate() {
        if *x == 0 {
            pop(&mut s, &mut c);
            live = (live - 1).max(0);
        } else {
            let e = enc(*x, i);
            s.call(&format!("\"op\":\"push\",\"x\":{}", dec(&e)), || {
                c.push(e.clone());
                "{\"k\":\"ok\"}".to_string()
            });
            live += 1;
        }
    }
    if drain {
        for _ in 0..live + 2 {
            pop(&mut s, &mut c);
        }
    }
    s.write(out);
}

/// many elements at once: `pushes`, `pops` taken in one go, then drained
fn batch<T: Clone, Q: SearchQueue<T>>(
    out: &mut Out,
    id: &str,
    kind: &str,
    mut c: Q,
    steps: &[(Vec<i64>, usize)],
    enc: &dyn Fn(i64, usize) -> T,
    dec: &dyn Fn(&T) -> String,
) {
    let mut s = Sess::new(id);
    s.event(format!("{{\"op\":\"new\",\"kind\":\"{}\"}}", kind));
    let mut i = 0;
    for (ps, n) in steps.iter().cloned().chain(std::iter::once((vec![], usize::MAX))) {
        let xs: Vec<T> = ps
            .iter()
            .map(|p| {
                i += 1;
                enc(*p, i)
            })
            .collect();
        s.call(&format!("\"op\":\"pushes\",\"xs\":{}", arr(xs.iter().map(|x| dec(x)))), || {
            for x in &xs {
                c.push(x.clone());
            }
            "{\"k\":\"ok\"}".to_string()
        });
        s.call(&format!("\"op\":\"pops\",\"n\":{}", n.min(1_000_000)), || {
            let mut got = vec![];
            while got.len() < n.min(1_000_000) {
                match c.pop() {
                    None => break,
                    Some(x) => got.push(dec(&x)),
                }
            }
            format!("{{\"k\":\"ok\",\"xs\":[{}]}}", got.join(","))
        });
    }
    s.write(out);
}

fn batches(out: &mut Out, id: &str, steps: &[(Vec<i64>, usize)]) {
    let enc = |p: i64, i: usize| ScoredPath { path: Path::from(&vec![VertexId(i as u64)]), score: p };
    let dec = |x: &ScoredPath| format!("[{},{}]", x.score, x.path.vertices[0].0);
    batch(out, &format!("{}s", id), "stack", Stack::<ScoredPath>::new::<ScoredPath>(), steps, &enc, &dec);
    batch(out, &format!("{}q", id), "queue", Queue::<ScoredPath>::new::<ScoredPath>(), steps, &enc, &dec);
    batch(out, &format!("{}M", id), "max", MaxPriorityQueue::<ScoredPath>::new::<ScoredPath>(), steps, &enc, &dec);
    batch(out, &format!("{}m", id), "min", MinPriorityQueue::<ScoredPath>::new::<ScoredPath>(), steps, &enc, &dec);
}

fn all(out: &mut Out, rng: &mut Rng, id: &str, ops: &[i64]) {
    // priorities stand for increasing values, up to the limits of the type
    let top = *ops.iter().max().unwrap_or(&0) as usize;
    let mut table: Vec<i64> = match rng.below(4) {
        0 => (1..=top as i64).collect(),
        1 => (1..=top as i64).map(|x| x << 40).collect(),
        2 => (1..=top).map(|_| rng.next() as i64).collect(),
        _ => {
            let ext = [i64::MIN, i64::MAX, 0, i64::MIN + 1, i64::MAX - 1, -1, 1, i64::MAX / 2 + 1, i64::MIN / 2 - 1];
            (0..top).map(|i| if i < ext.len() { ext[i] } else { rng.next() as i64 }).collect()
        }
    };
    table.sort();
    let rank = table.clone();
    let rank = move |x: i64| rank.binary_search(&x).map_or(777777777, |i| i + 1);
    // plain numbers: equal priorities are equal elements
    let (t, r) = (table.clone(), rank.clone());
    let enc = move |p: i64, _: usize| t[p as usize - 1];
    let dec = move |x: &i64| format!("[{},0]", r(*x));
    run(out, &format!("{}s", id), "stack", Stack::<i64>::new::<i64>(), ops, &enc, &dec, true);
    run(out, &format!("{}q", id), "queue", Queue::<i64>::new::<i64>(), ops, &enc, &dec, true);
    run(out, &format!("{}M", id), "max", MaxPriorityQueue::<i64>::new::<i64>(), ops, &enc, &dec, true);
    run(out, &format!("{}m", id), "min", MinPriorityQueue::<i64>::new::<i64>(), ops, &enc, &dec, true);
    // scored paths: equal scores, different paths (of different lengths)
    let pl: Vec<usize> = (0..ops.len()).map(|_| 1 + rng.below(4) as usize).collect();
    let enc = move |p: i64, i: usize| ScoredPath {
        path: Path::from(&(0..pl[i]).map(|k| VertexId((i + 100 * k) as u64)).collect()),
        score: table[p as usize - 1],
    };
    let dec = move |x: &ScoredPath| {
        format!(
            "[{},{}]",
            rank(x.score),
            x.path.vertices[0].0
        )
    };
    run(out, &format!("{}ps", id), "stack", Stack::<ScoredPath>::new::<ScoredPath>(), ops, &enc, &dec, true);
    run(out, &format!("{}pq", id), "queue", Queue::<ScoredPath>::new::<ScoredPath>(), ops, &enc, &dec, true);
    run(out, &format!("{}pM", id), "max", MaxPriorityQueue::<ScoredPath>::new::<ScoredPath>(), ops, &enc, &dec, true);
    run(out, &format!("{}pm", id), "min", MinPriorityQueue::<ScoredPath>::new::<ScoredPath>(), ops, &enc, &dec, true);
}

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    if let Some(f) = &a.input {
        for (k, line) in std::fs::read_to_string(f).expect("behaviours").lines().enumerate() {
            if !a.thorough && k % 4 != (a.seed % 4) as usize {
                continue;
            }
            let ops: Vec<i64> =
                line.split(|c: char| !c.is_ascii_digit()).filter(|t| !t.is_empty()).map(|t| t.parse().unwrap()).collect();
            all(&mut out, &mut rng, &format!("tlc{}", k), &ops);
        }
    }
    for k in 0..a.amount(60, 800) {
        let len = 10 + rng.below(50) as usize;
        let pm = *rng.pick(&[3, 20, 1000]);
        let pop = *rng.pick(&[20, 40, 50]);
        let ops: Vec<i64> = (0..len).map(|_| if rng.chance(pop) { 0 } else { rng.range(1, pm) }).collect();
        all(&mut out, &mut rng, &format!("r{}", k), &ops);
    }
    for k in 0..a.amount(3, 20) {
        let pm = *rng.pick(&[5, 100000]);
        let mut steps = vec![];
        for _ in 0..1 + rng.below(4) {
            let n = *rng.pick(&[70, 700, 5000]);
            let m = *rng.pick(&[0, 50, 600, 4000]);
            steps.push(((0..n).map(|_| rng.range(1, pm)).collect(), m));
        }
        batches(&mut out, &format!("big{}", k), &steps);
    }
    for n in [1usize << 10, 1 << 12, 1 << 14, if a.thorough { 1 << 16 } else { 1 << 15 }] {
        // one push short of, at and beyond a power of two (a plausible capacity)
        let steps = vec![((0..n as i64 - 1).map(|i| 1 + (i * 7919) % 1000).collect(), 1), (vec![5, 4, 6, 5], 2), (vec![1, 9], 0)];
        batches(&mut out, &format!("pow{}", n), &steps);
    }
    out.finish();
}
