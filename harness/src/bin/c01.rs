//! C01: histories of graph operations, all observers recorded after every step
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph_command::GraphCommand;
use gch::*;

fn observe(g: &DirectedGraph, ids: &Ids, ret: Vec<i32>) -> String {
    let n = ids.n();
    let cv = arr((1..=n).filter(|v| g.contains_vertex(ids.v(*v))));
    let mut ce = vec![];
    for a in 1..=n {
        for b in 1..=n {
            if g.contains_edge(ids.e(a, b)) {
                ce.push(format!("[{},{}]", a, b));
            }
        }
    }
    let per = |f: &dyn Fn(usize) -> String| arr((1..=n).map(|v| f(v)));
    format!(
        "{{\"k\":\"ok\",\"emp\":{},\"vc\":{},\"ec\":{},\"vs\":{},\"es\":{},\"cv\":{},\"ce\":{},\"ob\":{},\"ib\":{},\"dob\":{},\"dib\":{},\"hd\":{},\"ret\":{}}}",
        g.is_empty(),
        g.vertex_count(),
        g.edge_count(),
        arr(g.vertices().map(|v| ids.r(*v))),
        arr(g.edges().map(|e| ids.edge(e))),
        cv,
        arr(ce),
        per(&|v| arr(g.outbound_edges(ids.v(v)).map(|e| ids.edge(e)))),
        per(&|v| arr(g.inbound_edges(ids.v(v)).map(|e| ids.edge(e)))),
        per(&|v| g.degree_out(ids.v(v)).to_string()),
        per(&|v| g.degree_in(ids.v(v)).to_string()),
        g.head_option().map_or(0, |v| ids.r(*v)),
        arr(ret.iter()),
    )
}

/// mode: 0 direct calls, 1 apply_to, 2 apply_commands in groups, 3 reverted commands
/// answers what the additions of edges and the removals of vertices reported (direct calls only)
fn apply(g: &mut DirectedGraph, ids: &Ids, cs: &[Cmd], mode: u64) -> Vec<i32> {
    let mut ret = vec![];
    let real: Vec<GraphCommand> = cs.iter().map(|c| c.real(ids)).collect();
    match mode {
        0 => {
            for c in cs {
                match c.0 {
                    0 => {
                        g.add_vertex(ids.v(c.1));
                        ret.push(-1);
                    }
                    1 => {
                        ret.push(g.add_edge(ids.e(c.1, c.2)) as i32);
                    }
                    2 => {
                        ret.push(g.remove_vertex(ids.v(c.1)) as i32);
                    }
                    _ => {
                        g.remove_edge(ids.e(c.1, c.2));
                        ret.push(-1);
                    }
                }
            }
        }
        1 => real.iter().for_each(|c| c.apply_to(g)),
        2 => GraphCommand::apply_commands(real, g),
        _ => {
            // the reverse of the opposite command is the command itself
            for c in cs {
                let opp = Cmd(c.0 ^ 2, c.1, c.2).real(ids);
                GraphCommand::revert(opp).apply_to(g);
            }
        }
    }
    ret
}

fn run(out: &mut Out, id: &str, rng: &mut Rng, ids: &Ids, cmds: &[Cmd], mode: u64, every: bool) {
    let mut s = Sess::new(id);
    let mut g = DirectedGraph::new();
    s.call(&format!("\"op\":\"obs\",\"n\":{}", ids.n()), || observe(&g, ids, vec![]));
    let mut i = 0;
    while i < cmds.len() {
        let group = if mode == 2 || !every { 1 + rng.below(4) as usize } else { 1 };
        let cs = &cmds[i..(i + group).min(cmds.len())];
        i += cs.len();
        let desc = format!(
            "\"op\":\"step\",\"n\":{},\"cs\":{}",
            ids.n(),
            arr(cs.iter().map(|c| c.json()))
        );
        s.call(&desc, || {
            let ret = apply(&mut g, ids, cs, mode);
            observe(&g, ids, ret)
        });
    }
    s.write(out);
}

fn random_cmd(rng: &mut Rng, n: usize, bias: u64) -> Cmd {
    let a = 1 + rng.below(n as u64) as usize;
    let b = if rng.chance(15) { a } else { 1 + rng.below(n as u64) as usize };
    let x = rng.below(100);
    if x < 15 {
        Cmd(0, a, 0)
    } else if x < 100 - bias {
        Cmd(1, a, b)
    } else if x < 100 - bias / 2 {
        Cmd(2, a, 0)
    } else {
        Cmd(3, a, b)
    }
}

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    // behaviours generated by TLC from spec/GenStore.tla: all command sequences of a bounded length
    if let Some(f) = &a.input {
        let text = std::fs::read_to_string(f).expect("behaviours");
        for (k, line) in text.lines().enumerate() {
            let nums: Vec<usize> = line
                .split(|c: char| !c.is_ascii_digit())
                .filter(|t| !t.is_empty())
                .map(|t| t.parse().unwrap())
                .collect();
            // flattened: code, a, b triples
            let cmds: Vec<Cmd> = nums.chunks(3).map(|c| Cmd(c[0] as u8, c[1], c[2])).collect();
            let n = 3;
            let ids = Ids::gen(&mut rng, n);
            // every operation of the specification from that state
            let mut ops = vec![];
            for a in 1..=n {
                ops.push(Cmd(0, a, 0));
                ops.push(Cmd(2, a, 0));
                for b in 1..=n {
                    ops.push(Cmd(1, a, b));
                    ops.push(Cmd(3, a, b));
                }
            }
            for (j, op) in ops.iter().enumerate() {
                let mut h = cmds.clone();
                if rng.chance(50) {
                    rng.shuffle(&mut h); // additions only: any order builds the same graph
                }
                let mut s = Sess::new(&format!("tlc{}_{}", k, j));
                let spec = Spec { ids: ids.clone(), cmds: h };
                s.event(spec.json());
                let mut g = spec.build();
                let mode = (k + j) as u64 % 4;
                s.call(&format!("\"op\":\"step\",\"n\":{},\"cs\":[{}]", n, op.json()), || {
                    let ret = apply(&mut g, &ids, &[*op], mode);
                    observe(&g, &ids, ret)
                });
                s.write(&mut out);
            }
        }
    }
    // long random histories over a few ids: removals meet re-additions
    for k in 0..a.amount(120, 1500) {
        let n = 2 + rng.below(4) as usize;
        let ids = Ids::gen(&mut rng, n);
        let bias = *rng.pick(&[20, 40, 60]);
        let len = 20 + rng.below(40) as usize;
        let cmds: Vec<Cmd> = (0..len).map(|_| random_cmd(&mut rng, n, bias)).collect();
        let mode = rng.below(4);
        run(&mut out, &format!("h{}", k), &mut rng, &ids, &cmds, mode, true);
    }
    // larger graphs, observed now and then
    for k in 0..a.amount(12, 150) {
        let n = 8 + rng.below(12) as usize;
        let ids = Ids::gen(&mut rng, n);
        let bias = *rng.pick(&[10, 30]);
        let len = 60 + rng.below(60) as usize;
        let cmds: Vec<Cmd> = (0..len).map(|_| random_cmd(&mut rng, n, bias)).collect();
        let mode = rng.below(4);
        run(&mut out, &format!("big{}", k), &mut rng, &ids, &cmds, mode, false);
    }
    // hubs and many vertices: long adjacency lists, shrinking and growing again
    for k in 0..a.amount(10, 120) {
        let n = match k {
            0 | 1 => 280 + rng.below(60) as usize,
            2 => 1050,
            _ => 30 + rng.below(if a.thorough { 120 } else { 50 }) as usize,
        };
        let ids = Ids::gen(&mut rng, n);
        let hub = 1 + rng.below(n as u64) as usize;
        let mut all: Vec<Cmd> = vec![];
        for v in 1..=n {
            all.push(if rng.chance(50) { Cmd(1, hub, v) } else { Cmd(1, v, hub) });
            if rng.chance(20) {
                all.push(Cmd(1, v, hub));
                all.push(Cmd(1, 1 + rng.below(n as u64) as usize, v));
            }
        }
        rng.shuffle(&mut all);
        let mut rem: Vec<Cmd> = vec![];
        for _ in 0..n / 2 {
            let c = *rng.pick(&all);
            rem.push(if rng.chance(70) { Cmd(3, c.1, c.2) } else { Cmd(2, 1 + rng.below(n as u64) as usize, 0) });
        }
        let mut cmds = all.clone();
        if k != 0 && k != 2 {
            cmds.extend(rem);
        }
        cmds.push(Cmd(2, hub, 0));
        cmds.extend(all.iter().take(10));
        let mode = rng.below(4);
        // observed a few times only
        let mut s = Sess::new(&format!("hub{}", k));
        let mut g = DirectedGraph::new();
        let cut = [all.len(), cmds.len() - 11, cmds.len() - 10, cmds.len()];
        let mut i = 0;
        for c in cut {
            let cs = &cmds[i..c];
            i = c;
            let desc = format!("\"op\":\"step\",\"n\":{},\"cs\":{}", n, arr(cs.iter().map(|c| c.json())));
            s.call(&desc, || {
                let ret = apply(&mut g, &ids, cs, mode);
                observe(&g, &ids, ret)
            });
        }
        s.write(&mut out);
    }
    out.finish();
}
