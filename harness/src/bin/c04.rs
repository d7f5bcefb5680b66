//! C04: files given to the readers
use gc_core::directed_graph::DirectedGraph;
use gc_core::format::{gcmd, tgf};
use gc_core::graph_command::GraphCommand;
use gch::*;
use std::fs::File;
use std::io::Write;

/// A line is a list of pieces: a character, or a raw byte that is not UTF-8
#[derive(Clone, Copy, PartialEq)]
enum P {
    C(char),
    B(u8),
}
type Line = Vec<P>;

fn l(s: &str) -> Line {
    s.chars().map(P::C).collect()
}
fn codes(x: &Line) -> String {
    arr(x.iter().map(|p| match p {
        P::C(c) => *c as i64,
        P::B(_) => -1,
    }))
}
fn bytes(ls: &[Line], last_newline: bool) -> Vec<u8> {
    let mut r = vec![];
    for (i, x) in ls.iter().enumerate() {
        for p in x {
            match p {
                P::C(c) => {
                    let mut b = [0; 4];
                    r.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                }
                P::B(b) => r.push(*b),
            }
        }
        if i + 1 < ls.len() || last_newline {
            r.push(b'\n');
        }
    }
    r
}
fn digits(x: u64) -> String {
    arr(x.to_string().chars().map(|c| c as u8 - b'0'))
}
fn cmd(c: &GraphCommand) -> String {
    use GraphCommand::*;
    match c {
        AddVertex(v) => format!("[0,{}]", digits(v.0)),
        AddEdge(a, b) => format!("[1,{},{}]", digits(a.0), digits(b.0)),
        RemoveVertex(v) => format!("[2,{}]", digits(v.0)),
        RemoveEdge(a, b) => format!("[3,{},{}]", digits(a.0), digits(b.0)),
    }
}
/// the number after the first "line", or all numbers of the message
fn line_numbers(msg: &str) -> Vec<u64> {
    let low = msg.to_lowercase();
    let num = |s: &str| -> Option<u64> {
        let t: String = s
            .trim_start_matches(|c: char| !c.is_ascii_digit() && c != '\n')
            .chars()
            .take_while(|c| c.is_ascii_digit())
            .collect();
        t.parse().ok().filter(|n| *n < 1_000_000)
    };
    if let Some(i) = low.find("line") {
        if let Some(n) = num(&low[i + 4..]) {
            return vec![n];
        }
    }
    low.split(|c: char| !c.is_ascii_digit()).filter_map(|t| t.parse().ok()).filter(|n| *n < 1_000_000).collect()
}

fn parse(s: &mut Sess, f: &str, fmt: &str, ls: &[Line], nl: bool) {
    File::create(f).unwrap().write_all(&bytes(ls, nl)).unwrap();
    let desc = format!("\"op\":\"parse\",\"fmt\":\"{}\",\"ls\":{}", fmt, arr(ls.iter().map(codes)));
    read(s, f, fmt, &desc, false);
}

/// a file given by runs of equal lines
fn parse_runs(s: &mut Sess, f: &str, fmt: &str, runs: &[(Line, usize)]) {
    let mut text = vec![];
    for (x, n) in runs {
        let one = bytes(&[x.clone()], true);
        (0..*n).for_each(|_| text.extend_from_slice(&one));
    }
    File::create(f).unwrap().write_all(&text).unwrap();
    let desc = format!(
        "\"op\":\"runs\",\"fmt\":\"{}\",\"rs\":{}",
        fmt,
        arr(runs.iter().map(|(x, n)| format!("[{},{}]", codes(x), n)))
    );
    read(s, f, fmt, &desc, true);
}

fn run_lengths(cs: &[String]) -> String {
    let mut r: Vec<(String, usize)> = vec![];
    for c in cs {
        match r.last_mut() {
            Some(x) if x.0 == *c => x.1 += 1,
            _ => r.push((c.clone(), 1)),
        }
    }
    arr(r.iter().map(|(c, n)| format!("[{},{}]", c, n)))
}

fn read(s: &mut Sess, f: &str, fmt: &str, desc: &str, runs: bool) {
    s.call(&desc, || {
        let open = || File::open(f).unwrap();
        let (cs, g): (Result<Vec<GraphCommand>, String>, Result<DirectedGraph, String>) = if fmt == "gcmd" {
            (gcmd::read_as_commands(open()), gcmd::read(open()))
        } else {
            (tgf::read_as_commands(open()), tgf::read(open()))
        };
        let gk = if g.is_ok() { "ok" } else { "err" };
        match cs {
            Ok(cs) => format!(
                "{{\"k\":\"ok\",\"cs\":{},\"gk\":\"{}\",\"vs\":{},\"es\":{}}}",
                if runs { run_lengths(&cs.iter().map(cmd).collect::<Vec<_>>()) } else { arr(cs.iter().map(cmd)) },
                gk,
                g.as_ref().map_or("[]".to_string(), |g| arr(g.vertices().map(|v| digits(v.0)))),
                g.as_ref().map_or("[]".to_string(), |g| arr(g
                    .edges()
                    .map(|e| format!("[{},{}]", digits((e.0).0), digits((e.1).0))))),
            ),
            Err(m) => format!(
                "{{\"k\":\"err\",\"nums\":{},\"gk\":\"{}\"}}",
                arr(line_numbers(&m).iter().filter(|n| match &g {
                    Err(m2) => line_numbers(m2).contains(n),
                    _ => false,
                })),
                gk
            ),
        }
    });
}

const NUMS: &[&str] = &[
    "0", "1", "2", "7", "10", "12", "99", "255", "256", "65535", "4294967295", "4294967296",
    "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551614",
    "18446744073709551615",
];
const BADNUMS: &[&str] = &[
    "18446744073709551616", "18446744073709551625", "28446744073709551615", "99999999999999999999",
    "184467440737095516150", "100000000000000000000000000000000000000000", "-1", "1.0", "0x10", "1e3", "\u{0661}",
    "1\u{0662}", "\u{ff11}", "\u{0967}2", "1_000", "x", "v1", "1,2", "''", "--", "1-2",
];
const KW: &[&str] = &["AddVertex", "AddEdge", "RemoveVertex", "RemoveEdge"];
const BADKW: &[&str] = &[
    "addvertex", "ADDVERTEX", "addedge", "ADDEDGE", "removevertex", "REMOVEVERTEX", "removeedge", "REMOVEEDGE", "Add Vertex", "Add Edge", "Remove Vertex", "DelEdge", "AddVertex:", "AddVertex(", "+", "-", "\"AddVertex\"",  "AddVertx", "AddVertexx", "AddVertices", "Addvertex", "AddEdges", "RemoveVertexs",
    "DeleteVertex", "Add", "Vertex", "Edge", "RemoveEdg", "removeEdge", "AddNode", "//", ";", "%",
];
const LABELS: &[&str] = &["a", "label", "some label", "a1", "x 2", "#tag", "\u{e9}t\u{e9}", "node(3)", "_", ".", ":5"];

fn good(rng: &mut Rng, fmt: &str) -> Line {
    let a = *rng.pick(NUMS);
    let b = *rng.pick(NUMS);
    l(&if fmt == "gcmd" {
        match rng.below(4) {
            0 => format!("AddVertex {}", a),
            1 => format!("AddEdge {} {}", a, b),
            2 => format!("RemoveVertex {}", a),
            _ => format!("RemoveEdge {} {}", a, b),
        }
    } else {
        match rng.below(4) {
            0 => a.to_string(),
            1 => format!("{} {}", a, b),
            2 => format!("{} {}", a, rng.pick(LABELS)),
            _ => format!("{} {} {}", a, b, rng.pick(LABELS)),
        }
    })
}

fn line(rng: &mut Rng, fmt: &str) -> Line {
    let ws = *rng.pick(&["  ", "\t", " \t ", "\u{a0}", "\u{3000}", "   "]);
    match rng.below(20) {
        0..=7 => good(rng, fmt),
        8 => l(""),
        9 => l(rng.pick(&["#", "# comment", "  # AddVertex 5", "#1 2", "##", "\t#", "# \u{e9}"])),
        10 => l(rng.pick(&[" ", "\t", "  \t", "\r", " \r", "\u{a0}"])),
        11 | 12 => {
            // wrong number in a right place
            let b = *rng.pick(BADNUMS);
            let n = *rng.pick(NUMS);
            let t = match rng.below(3) {
                0 => b.to_string(),
                1 => format!("{} {}", b, n),
                _ => format!("{} {}", n, b),
            };
            if fmt == "gcmd" {
                l(&format!("{} {}", rng.pick(KW), t))
            } else {
                l(&t)
            }
        }
        13 => {
            // operand counts
            let k = rng.below(5);
            let mut t = if fmt == "gcmd" { rng.pick(KW).to_string() } else { String::new() };
            for i in 0..k {
                if i > 0 || fmt == "gcmd" {
                    t.push(' ');
                }
                t.push_str(rng.pick(NUMS));
            }
            l(&t)
        }
        14 => l(&format!("{} {}", rng.pick(BADKW), rng.pick(NUMS))),
        15 => {
            // white space variants
            let x = good(rng, fmt);
            let mut r: Line = vec![];
            if rng.chance(30) {
                r.extend(l(ws));
            }
            for p in x {
                if p == P::C(' ') && rng.chance(60) {
                    r.extend(l(ws));
                } else {
                    r.push(p);
                }
            }
            if rng.chance(40) {
                r.extend(l(ws));
            }
            if rng.chance(30) {
                r.push(P::C('\r'));
            }
            r
        }
        16 => {
            // leading zeros and signs
            let z = *rng.pick(&["0", "00", "+", "000000000000000000000"]);
            if fmt == "gcmd" {
                l(&format!("AddEdge {}{} {}", z, rng.pick(NUMS), rng.pick(NUMS)))
            } else {
                l(&format!("{}{} {}", z, rng.pick(NUMS), rng.pick(NUMS)))
            }
        }
        17 => {
            // bytes that are not UTF-8
            let mut x = good(rng, fmt);
            let i = rng.below(x.len() as u64 + 1) as usize;
            if rng.chance(20) {
                x.insert(0, P::C('#'));
            }
            x.insert(i, P::B(*rng.pick(&[0xff, 0xfe, 0x80, 0xc0])));
            x
        }
        _ => {
            // one or two random edits
            let mut x = good(rng, fmt);
            for _ in 0..1 + rng.below(2) {
                let c = *rng.pick(&[
                    '0', '1', '9', ' ', '#', 'a', 'A', '-', '+', '\t', '\r', '\u{661}', '\0', '\u{feff}', '.', ',',
                ]);
                let i = rng.below(x.len() as u64 + 1) as usize;
                match rng.below(3) {
                    0 => x.insert(i, P::C(c)),
                    1 if i < x.len() => {
                        x.remove(i);
                    }
                    _ if i < x.len() => x[i] = P::C(c),
                    _ => x.push(P::C(c)),
                }
            }
            x
        }
    }
}

fn main() {
    let a = args();
    let mut out = Out::new(&a);
    let mut rng = Rng::new(a.seed);
    let f = format!("{}.file", a.out);
    // all short lines over a small alphabet
    for fmt in ["tgf", "gcmd"] {
        let alpha: Vec<char> = vec!['1', '0', ' ', 'a', '#', '\u{662}'];
        let maxlen = if a.thorough { 5 } else { 4 };
        let mut s = Sess::new(&format!("all_{}", fmt));
        let mut n = 0;
        for len in 0..=maxlen {
            for i in 0..alpha.len().pow(len) {
                let t: String = (0..len).map(|k| alpha[i / alpha.len().pow(k) % alpha.len()]).collect();
                let pre = if fmt == "gcmd" { *rng.pick(&["AddVertex ", "AddEdge ", "RemoveEdge ", "RemoveVertex "]) } else { "" };
                parse(&mut s, &f, fmt, &[l(&format!("{}{}", pre, t))], rng.chance(80));
                n += 1;
                if n % 50 == 0 {
                    s.write(&mut out);
                    s = Sess::new(&format!("all_{}_{}", fmt, n));
                }
            }
        }
        s.write(&mut out);
    }
    // every word with every number: single operands, then pairs
    for fmt in ["tgf", "gcmd"] {
        let mut s = Sess::new(&format!("words_{}", fmt));
        for k in KW.iter().chain(BADKW.iter()) {
            for x in NUMS.iter().chain(BADNUMS.iter()) {
                let pre = if fmt == "gcmd" { format!("{} ", k) } else { String::new() };
                parse(&mut s, &f, fmt, &[l(&format!("{}{}", pre, x))], true);
                let y = *rng.pick(NUMS);
                parse(&mut s, &f, fmt, &[l(&format!("{}{} {}", pre, x, y))], true);
                parse(&mut s, &f, fmt, &[l(&format!("{}{} {}", pre, y, x))], true);
            }
            s.write(&mut out);
            s = Sess::new(&format!("words_{}_{}", fmt, k.replace('"', "")));
        }
        s.write(&mut out);
    }
    // every single edit of well-formed lines, and lines joined
    for fmt in ["tgf", "gcmd"] {
        let base: &[&str] = if fmt == "gcmd" {
            &["AddVertex 12", "AddEdge 1 20", "RemoveVertex 30", "RemoveEdge 4 5"]
        } else {
            &["12", "1 20", "7 ab", "1 2 a b"]
        };
        let chars = ['1', ' ', 'a', '#', '-', '\t', '\r', '\u{661}', 'A', '\u{feff}'];
        let mut s = Sess::new(&format!("edits_{}", fmt));
        for b in base {
            let x = l(b);
            for i in 0..=x.len() {
                let mut ys: Vec<Line> = vec![];
                for c in chars {
                    let mut y = x.clone();
                    y.insert(i, P::C(c));
                    ys.push(y);
                    if i < x.len() {
                        let mut y = x.clone();
                        y[i] = P::C(c);
                        ys.push(y);
                    }
                }
                for c in (0x20u8..0x7f).chain([0, 1, 8, 11, 12, 27, 127]).map(|c| c as char) {
                    if !a.thorough && !rng.chance(12) {
                        continue;
                    }
                    let mut y = x.clone();
                    if i < x.len() && rng.chance(50) {
                        y[i] = P::C(c);
                    } else {
                        y.insert(i, P::C(c));
                    }
                    ys.push(y);
                }
                if i < x.len() {
                    // the other case: of this letter, up to it, from it on
                    let flip = |p: P| match p {
                        P::C(c) if c.is_ascii_uppercase() => P::C(c.to_ascii_lowercase()),
                        P::C(c) => P::C(c.to_ascii_uppercase()),
                        p => p,
                    };
                    for (m, n) in [(i, i + 1), (0, i + 1), (i, x.len())] {
                        let y: Line = x.iter().enumerate().map(|(k, p)| if m <= k && k < n { flip(*p) } else { *p }).collect();
                        if y != x {
                            ys.push(y);
                        }
                    }
                    let mut y = x.clone();
                    y.remove(i);
                    ys.push(y);
                    let mut y = x.clone();
                    let c = y[i];
                    y.insert(i, c);
                    ys.push(y);
                }
                if i + 1 < x.len() {
                    let mut y = x.clone();
                    y.swap(i, i + 1);
                    ys.push(y);
                }
                for y in ys {
                    parse(&mut s, &f, fmt, &[y], rng.chance(80));
                }
            }
            s.write(&mut out);
            s = Sess::new(&format!("edits_{}_{}", fmt, b.len()));
        }
        for b in base {
            for c in base {
                for sep in ["", " ", "  ", ",", ";", " # ", "#", "\t", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{2028}"] {
                    parse(&mut s, &f, fmt, &[l(&format!("{}{}{}", b, sep, c))], true);
                    parse(&mut s, &f, fmt, &[l(c), l(&format!("{}{}", sep, b)), l(&format!("{}{}", b, sep))], true);
                }
            }
        }
        s.write(&mut out);
    }
    // files of several lines
    for k in 0..a.amount(900, 12000) {
        let mut s = Sess::new(&format!("file{}", k));
        let fmt = *rng.pick(&["tgf", "gcmd"]);
        for _ in 0..3 {
            let n = rng.below(9) as usize;
            let clean = rng.chance(40);
            let ls: Vec<Line> = (0..n)
                .map(|_| if clean || rng.chance(50) { good(&mut rng, fmt) } else { line(&mut rng, fmt) })
                .collect();
            // a file of n lines without a final newline whose last line is empty has one line less
            let nl = rng.chance(80) || ls.last().map_or(false, |x| x.is_empty());
            parse(&mut s, &f, fmt, &ls, nl);
        }
        s.write(&mut out);
    }
    // long files: the bad line is far down
    for k in 0..a.amount(6, 60) {
        let mut s = Sess::new(&format!("long{}", k));
        let fmt = *rng.pick(&["tgf", "gcmd"]);
        let n = 100 + rng.below(200) as usize;
        let bad = rng.below(2 * n as u64) as usize;
        let ls: Vec<Line> =
            (0..n).map(|i| if i == bad { l("AddVertex 1 2 x") } else if rng.chance(5) { l("# c") } else { good(&mut rng, fmt) }).collect();
        parse(&mut s, &f, fmt, &ls, true);
        s.write(&mut out);
    }
    // files of very many lines: runs of equal ones, the bad line beyond some plausible limit
    for (k, total) in [127usize, 255, 256, 1023, 4096, 32767, 65535, 65536, 70000, if a.thorough { 300000 } else { 66000 }].iter().enumerate() {
        for fmt in ["tgf", "gcmd"] {
            let mut s = Sess::new(&format!("runs{}_{}", k, fmt));
            for (bad, tail) in [(true, 0), (true, 3), (false, 2)] {
                let pool: Vec<Line> = if fmt == "gcmd" {
                    vec![l("AddVertex 7"), l("# c"), l("AddEdge 1 2"), l(""), l("RemoveVertex 7"), l("AddEdge 3 3"), l("RemoveEdge 1 2")]
                } else {
                    vec![l("7"), l("# c"), l("1 2"), l(""), l("8 a"), l("3 3"), l("#")]
                };
                // the bad line, if any, is number total + 1
                let cut = 1 + rng.below(3) as usize;
                let mut runs: Vec<(Line, usize)> = vec![];
                let mut left = *total;
                for i in 0..cut {
                    let n = if i + 1 == cut { left } else { rng.below(left as u64 + 1) as usize };
                    left -= n;
                    runs.push((pool[(2 * i + rng.below(2) as usize) % pool.len()].clone(), n));
                }
                if bad {
                    runs.push((l("AddVertex x"), 1));
                }
                if tail > 0 {
                    runs.push((pool[5].clone(), tail));
                }
                runs.retain(|r| r.1 > 0);
                parse_runs(&mut s, &f, fmt, &runs);
            }
            s.write(&mut out);
        }
    }
    std::fs::remove_file(&f).ok();
    out.finish();
}
