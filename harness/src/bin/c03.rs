//! C03: saving and reloading (library)
use gc_core::directed_graph::DirectedGraph;
use gc_core::format::{gcmd, tgf};
use gc_core::graph_command::GraphCommand;
use gch::*;
use std::fs::File;

fn dump(g: &DirectedGraph, ids: &Ids) -> String {
    format!(
        "{{\"k\":\"ok\",\"vs\":{},\"es\":{}}}",
        arr(g.vertices().map(|v| ids.r(*v))),
        arr(g.edges().map(|e| ids.edge(e)))
    )
}

fn err() -> String {
    "{\"k\":\"err\"}".to_string()
}

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    let dir = std::path::PathBuf::from(format!("{}.files", a.out));
    std::fs::create_dir_all(&dir).expect("scratch");
    let file = |n: &str| dir.join(n).to_str().unwrap().to_string();
    let mut cs = corpus(&a, &mut rng, a.amount(150, 4000), a.amount(600, 5000), 14);
    // large graphs: files of more than one buffer
    for k in 0..a.amount(4, 20) {
        let n = 400 + rng.below(300) as usize;
        let es: Vec<(usize, usize)> =
            (0..2 * n).map(|_| (1 + rng.below(n as u64) as usize, 1 + rng.below(n as u64) as usize)).collect();
        cs.push((format!("big{}", k), spec_of(&mut rng, n, &es)));
    }
    for (id, sp) in cs {
        let g = sp.build();
        let ids = &sp.ids;
        let mut s = Sess::new(&id);
        s.event(sp.json());
        s.call("\"op\":\"rt\",\"how\":\"commands\"", || {
            let mut h = DirectedGraph::new();
            GraphCommand::apply_commands(GraphCommand::as_commands(&g), &mut h);
            dump(&h, ids)
        });
        let f = file("a.tgf");
        s.call("\"op\":\"rt\",\"how\":\"tgf\"", || match tgf::save(&g, f.clone()) {
            Ok(()) => tgf::read(File::open(&f).unwrap()).map_or(err(), |h| dump(&h, ids)),
            Err(_) => err(),
        });
        let f = file("a.gcmd");
        s.call("\"op\":\"rt\",\"how\":\"gcmd\"", || match gcmd::save(&g, &f) {
            Ok(()) => gcmd::read(File::open(&f).unwrap()).map_or(err(), |h| dump(&h, ids)),
            Err(_) => err(),
        });
        // further commands appended to the saved file
        for _ in 0..2 {
            let n = ids.n() as u64;
            let more: Vec<Cmd> = (0..rng.below(5))
                .map(|_| {
                    Cmd(rng.below(4) as u8, 1 + rng.below(n) as usize, 1 + rng.below(n) as usize)
                })
                .collect();
            s.event(format!("{{\"op\":\"cmds\",\"cs\":{}}}", arr(more.iter().map(|c| c.json()))));
            s.call("\"op\":\"rt\",\"how\":\"append\"", || {
                match gcmd::add_commands(&f, more.iter().map(|c| c.real(ids)).collect()) {
                    Ok(()) => gcmd::read(File::open(&f).unwrap()).map_or(err(), |h| dump(&h, ids)),
                    Err(_) => err(),
                }
            });
            // reload, save again, as compaction does
            s.call("\"op\":\"rt\",\"how\":\"resave\"", || {
                let h = match gcmd::read(File::open(&f).unwrap()) {
                    Ok(h) => h,
                    Err(_) => return err(),
                };
                match gcmd::save(&h, &f) {
                    Ok(()) => gcmd::read(File::open(&f).unwrap()).map_or(err(), |h| dump(&h, ids)),
                    Err(_) => err(),
                }
            });
        }
        s.write(&mut out);
    }
    std::fs::remove_dir_all(&dir).ok();
    out.finish();
}
