//! C18: attribute mappings
use gc_core::attribute::attribute_command::AttributeCommand;
use gc_core::attribute::mapping::{no_edge_mapping, no_vertex_mapping, AttributeMapping, EdgeAttrMapping, VertexAttrMapping};
use gc_core::graph::{Edge, VertexId};
use gch::*;

#[derive(Clone)]
struct A(u8, usize, usize, i64);

impl A {
    fn json(&self) -> String {
        match self.0 {
            0 => format!("[0,{},{}]", self.1, self.3),
            1 => format!("[1,{},{},{}]", self.1, self.2, self.3),
            2 => format!("[2,{}]", self.1),
            _ => format!("[3,{},{}]", self.1, self.2),
        }
    }
    fn real(&self, ids: &Ids) -> AttributeCommand<String> {
        match self.0 {
            0 => AttributeCommand::AddVertexAttr(ids.v(self.1), self.3.to_string()),
            1 => AttributeCommand::AddEdgeAttr(ids.v(self.1), ids.v(self.2), self.3.to_string()),
            2 => AttributeCommand::RemoveVertexAttr(ids.v(self.1)),
            _ => AttributeCommand::RemoveEdgeAttr(ids.v(self.1), ids.v(self.2)),
        }
    }
}

enum M {
    V(VertexAttrMapping<String>),
    E(EdgeAttrMapping<String>),
}

fn bools(v: Vec<bool>) -> String {
    arr(v)
}

fn run(out: &mut Out, rng: &mut Rng, id: &str, n: usize, cmds: &[A], edges: bool) {
    let ids = Ids::gen(rng, n);
    let mut s = Sess::new(id);
    let name = *rng.pick(&["empty", "weight", "a b", "\u{e9}", ""]);
    let mut m = if edges {
        M::E(if name == "empty" { no_edge_mapping() } else { AttributeMapping::<Edge, String>::new(name) })
    } else {
        M::V(if name == "empty" { no_vertex_mapping() } else { AttributeMapping::<VertexId, String>::new(name) })
    };
    let nm = |m: &M| q(match m {
        M::V(x) => x.name(),
        M::E(x) => x.name(),
    });
    s.call(
        &format!("\"op\":\"new\",\"kind\":\"{}\",\"name\":{}", if edges { "e" } else { "v" }, q(name)),
        || format!("{{\"k\":\"ok\",\"name\":{}}}", nm(&m)),
    );
    let mut keys: Vec<(usize, usize)> = vec![];
    for a in 1..=n {
        if edges {
            for b in 1..=n {
                keys.push((a, b));
            }
        } else {
            keys.push((a, 0));
        }
    }
    let kj = |k: &(usize, usize)| if edges { format!("[{},{}]", k.0, k.1) } else { format!("[{}]", k.0) };
    let mut i = 0;
    while i < cmds.len() {
        let len = if n > 4 { 100 + rng.below(200) as usize } else if rng.chance(60) { 1 } else { 1 + rng.below(4) as usize };
        let cs = &cmds[i..(i + len).min(cmds.len())];
        i += cs.len();
        let how = *rng.pick(&["cmd", "batch", "direct"]);
        let desc = format!(
            "\"op\":\"attr\",\"how\":\"{}\",\"cs\":{},\"keys\":{}",
            how,
            arr(cs.iter().map(|c| c.json())),
            arr(keys.iter().map(kj))
        );
        s.call(&desc, || {
            let mut rets = vec![];
            if how == "batch" {
                let real: Vec<_> = cs.iter().map(|c| c.real(&ids)).collect();
                match &mut m {
                    M::V(x) => AttributeCommand::<String>::apply_vertex_commands_to(real, x),
                    M::E(x) => AttributeCommand::<String>::apply_edge_commands_to(real, x),
                }
            } else {
                for c in cs {
                    let r = match &mut m {
                        M::V(x) if how == "direct" && c.0 == 0 => x.add(ids.v(c.1), c.3.to_string()),
                        M::V(x) if how == "direct" && c.0 == 2 => x.remove(&ids.v(c.1)),
                        M::E(x) if how == "direct" && c.0 == 1 => x.add(ids.e(c.1, c.2), c.3.to_string()),
                        M::E(x) if how == "direct" && c.0 == 3 => x.remove(&ids.e(c.1, c.2)),
                        M::V(x) => AttributeCommand::<String>::apply_vertex_command_to(c.real(&ids), x),
                        M::E(x) => AttributeCommand::<String>::apply_edge_command_to(c.real(&ids), x),
                    };
                    rets.push(r);
                }
            }
            let dflt = "-7".to_string();
            let mut obs = vec![];
            let mut def = vec![];
            for k in &keys {
                let (o, d) = match &m {
                    M::V(x) => (
                        x.as_closure()(&ids.v(k.0)).cloned(),
                        x.as_closure_with_defaults(&dflt)(&ids.v(k.0)).clone(),
                    ),
                    M::E(x) => (
                        x.as_closure()(&ids.e(k.0, k.1)).cloned(),
                        x.as_closure_with_defaults(&dflt)(&ids.e(k.0, k.1)).clone(),
                    ),
                };
                if let Some(o) = o {
                    obs.push(format!("[{},{}]", kj(k), o));
                }
                def.push(d);
            }
            format!(
                "{{\"k\":\"ok\",\"rets\":{},\"obs\":{},\"def\":{},\"name\":{}}}",
                bools(rets),
                arr(obs),
                arr(def),
                nm(&m)
            )
        });
    }
    s.write(out);
}

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    // behaviours generated by TLC from spec/GenAttr.tla
    if let Some(f) = &a.input {
        for (k, line) in std::fs::read_to_string(f).expect("behaviours").lines().enumerate() {
            let mut cmds = vec![];
            for part in line.split(">>") {
                let x: Vec<i64> =
                    part.split(|c: char| !c.is_ascii_digit()).filter(|t| !t.is_empty()).map(|t| t.parse().unwrap()).collect();
                match x.len() {
                    0 => (),
                    2 => cmds.push(A(2, x[1] as usize, 0, 0)),
                    3 if x[0] == 0 => cmds.push(A(0, x[1] as usize, 0, x[2])),
                    3 => cmds.push(A(3, x[1] as usize, x[2] as usize, 0)),
                    _ => cmds.push(A(1, x[1] as usize, x[2] as usize, x[3])),
                }
            }
            let edges = k % 2 == 0;
            run(&mut out, &mut rng, &format!("tlc{}", k), 2, &cmds, edges);
        }
    }
    for k in 0..a.amount(320, 4200) {
        // now and then many keys, and long batches
        let many = k % 16 == 0;
        let edges = rng.chance(60);
        let n = if !many { 1 + rng.below(4) as usize } else if edges { 16 } else { 150 };
        let len = if many { 200 + rng.below(400) } else { 5 + rng.below(40) } as usize;
        let other = *rng.pick(&[5, 20, 40]);
        let cmds: Vec<A> = (0..len)
            .map(|_| {
                let e = if rng.chance(other) { !edges } else { edges };
                let x = 1 + rng.below(n as u64) as usize;
                let y = 1 + rng.below(n as u64) as usize;
                let rem = rng.chance(35);
                let val = rng.range(1, 50);
                A((if rem { 2 } else { 0 }) + if e { 1 } else { 0 }, x, y, val)
            })
            .collect();
        run(&mut out, &mut rng, &format!("r{}", k), n, &cmds, edges);
    }
    out.finish();
}
