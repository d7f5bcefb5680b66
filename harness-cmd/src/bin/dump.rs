//! Prints the graph of a directory as the library loads it: "v <id>" and "e <id> <id>" lines
use gc_command::graph_utils;

fn main() {
    let dir = std::env::args().nth(1).expect("directory");
    match graph_utils::load_graph(&dir) {
        Ok(g) => {
            let mut s = String::from("ok\n");
            for v in g.vertices() {
                s.push_str(&format!("v {}\n", v.0));
            }
            for e in g.edges() {
                s.push_str(&format!("e {} {}\n", (e.0).0, (e.1).0));
            }
            print!("{}", s);
        }
        Err(_) => println!("err"),
    }
}
