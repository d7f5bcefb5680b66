//! Runs one library operation on a directory: apply DIR OP [ID..]; exit status 1 if it gives an error
use gc_command::graph_utils as gu;
use gc_core::graph::VertexId;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let dir = &a[1];
    let ids: Vec<VertexId> = a[3..].iter().map(|x| VertexId(x.parse().expect("id"))).collect();
    let pairs: Vec<(VertexId, VertexId)> = ids.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0], c[1])).collect();
    let r = match a[2].as_str() {
        "init" => gu::init(dir),
        "clean" => gu::clean(dir),
        "add_vertex" => gu::add_vertex(dir, ids[0]),
        "add_vertices" => gu::add_vertices(dir, ids),
        "add_edge" => gu::add_edge(dir, ids[0], ids[1]),
        "add_edges" => gu::add_edges(dir, pairs),
        "remove_vertex" => gu::remove_vertex(dir, ids[0]),
        "remove_vertices" => gu::remove_vertices(dir, ids),
        "remove_edges" => gu::remove_edges(dir, pairs),
        "save" => gu::load_graph(dir)
            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))
            .and_then(|g| gu::with_lock(dir, || gu::save_graph_as_commands(dir, &g))),
        "lock" => gu::lock(dir),
        "unlock" => gu::unlock(dir),
        "is_locked" => std::process::exit(if gu::is_locked(dir) { 10 } else { 11 }),
        _ => panic!("unknown operation"),
    };
    std::process::exit(if r.is_ok() { 0 } else { 1 });
}
