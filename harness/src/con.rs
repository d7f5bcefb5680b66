//! Constraints on ranks: generation, JSON for the specification, real values
use crate::{arr, Ids, Rng};
use gc_core::constraint::constraint::Constraint;

#[derive(Clone, Debug, PartialEq)]
pub enum C {
    Cv(usize),
    Ce(usize, usize),
    Ov(Vec<usize>),
    Cc,
    MinL(i64),
    MaxL(i64),
    MinS(i64),
    MaxS(i64),
    Or(Box<C>, Box<C>),
    And(Box<C>, Box<C>),
    Xor(Box<C>, Box<C>),
    Not(Box<C>),
}
use C::*;

/// lengths and scores near the limits of the machine types have symbolic values in the specification
pub const TOP_LEN: i64 = 1_000_000;
pub const TOP_SCORE: i64 = 1000;
pub fn length(n: i64) -> usize {
    if n >= TOP_LEN - 100 {
        usize::MAX - (TOP_LEN - n) as usize
    } else {
        n as usize
    }
}
pub fn score(n: i64, scale: i64) -> i64 {
    if n >= TOP_SCORE - 100 {
        i64::MAX - (TOP_SCORE - n)
    } else if n <= 100 - TOP_SCORE {
        i64::MIN + (n + TOP_SCORE)
    } else {
        n * scale
    }
}

impl C {
    pub fn json(&self) -> String {
        match self {
            Cv(v) => format!("[\"cv\",{}]", v),
            Ce(a, b) => format!("[\"ce\",{},{}]", a, b),
            Ov(q) => format!("[\"ov\",{}]", arr(q.iter())),
            Cc => "[\"cc\"]".to_string(),
            MinL(n) => format!("[\"minl\",{}]", n),
            MaxL(n) => format!("[\"maxl\",{}]", n),
            MinS(n) => format!("[\"mins\",{}]", n),
            MaxS(n) => format!("[\"maxs\",{}]", n),
            Or(a, b) => format!("[\"or\",{},{}]", a.json(), b.json()),
            And(a, b) => format!("[\"and\",{},{}]", a.json(), b.json()),
            Xor(a, b) => format!("[\"xor\",{},{}]", a.json(), b.json()),
            Not(a) => format!("[\"not\",{}]", a.json()),
        }
    }
    pub fn real(&self, ids: &Ids, scale: i64) -> Constraint {
        let b = |c: &C| Box::new(c.real(ids, scale));
        match self {
            Cv(v) => Constraint::ContainsVertex(ids.v(*v)),
            Ce(x, y) => Constraint::ContainsEdge(ids.e(*x, *y)),
            Ov(q) => Constraint::OrderedVertices(q.iter().map(|v| ids.v(*v)).collect()),
            Cc => Constraint::ContainsCycle,
            MinL(n) => Constraint::MinLength(length(*n)),
            MaxL(n) => Constraint::MaxLength(length(*n)),
            MinS(n) => Constraint::MinScore(score(*n, scale)),
            MaxS(n) => Constraint::MaxScore(score(*n, scale)),
            Or(x, y) => Constraint::Or(b(x), b(y)),
            And(x, y) => Constraint::And(b(x), b(y)),
            Xor(x, y) => Constraint::Xor(b(x), b(y)),
            Not(x) => Constraint::Not(b(x)),
        }
    }
    /// our own evaluation, used to choose inputs only
    pub fn holds(&self, p: &[usize], sc: i64) -> bool {
        match self {
            Cv(v) => p.contains(v),
            Ce(a, b) => p.windows(2).any(|w| w[0] == *a && w[1] == *b),
            Ov(q) => {
                let ix: Vec<usize> = p.iter().filter_map(|v| q.iter().position(|x| x == v)).collect();
                ix.windows(2).all(|w| w[0] <= w[1])
            }
            Cc => (0..p.len()).any(|i| p[..i].contains(&p[i])),
            MinL(n) => p.len() as i64 >= *n,
            MaxL(n) => p.len() as i64 <= *n,
            MinS(n) => sc >= *n,
            MaxS(n) => sc <= *n,
            Or(a, b) => a.holds(p, sc) || b.holds(p, sc),
            And(a, b) => a.holds(p, sc) && b.holds(p, sc),
            Xor(a, b) => a.holds(p, sc) != b.holds(p, sc),
            Not(a) => !a.holds(p, sc),
        }
    }
    pub fn bounding(&self) -> bool {
        match self {
            MaxL(_) | MaxS(_) => true,
            Not(c) => **c == Cc,
            _ => false,
        }
    }
}

pub fn list_json(cs: &[C]) -> String {
    arr(cs.iter().map(|c| c.json()))
}

/// n vertices, lengths 0..=lmax, scores smin..=smax
pub struct Gen {
    pub n: usize,
    pub lmax: i64,
    pub smin: i64,
    pub smax: i64,
    /// now and then a bound at the limits of the machine type
    pub extreme: bool,
}

impl Gen {
    fn v(&self, rng: &mut Rng) -> usize {
        1 + rng.below(self.n as u64) as usize
    }
    pub fn l(&self, rng: &mut Rng) -> i64 {
        if self.extreme && rng.chance(6) {
            return TOP_LEN - rng.range(0, 2);
        }
        rng.range(0, self.lmax)
    }
    pub fn s(&self, rng: &mut Rng) -> i64 {
        if self.extreme && rng.chance(8) {
            let k = TOP_SCORE - rng.range(0, 2);
            return if rng.chance(50) { k } else { -k };
        }
        rng.range(self.smin, self.smax)
    }
    pub fn atom(&self, rng: &mut Rng) -> C {
        match rng.below(9) {
            0 => Cv(self.v(rng)),
            1 | 2 => Ce(self.v(rng), self.v(rng)),
            3 => {
                let mut q: Vec<usize> = (1..=self.n).collect();
                rng.shuffle(&mut q);
                q.truncate(rng.below(self.n as u64 + 1) as usize);
                Ov(q)
            }
            4 => Cc,
            5 => MinL(self.l(rng)),
            6 => MaxL(self.l(rng)),
            7 => MinS(self.s(rng)),
            _ => MaxS(self.s(rng)),
        }
    }
    pub fn tree(&self, rng: &mut Rng, depth: u64) -> C {
        if depth == 0 || rng.chance(25) {
            return self.atom(rng);
        }
        let s = |rng: &mut Rng| Box::new(self.tree(rng, depth - 1));
        match rng.below(5) {
            0 => Or(s(rng), s(rng)),
            1 => And(s(rng), s(rng)),
            2 => Xor(s(rng), s(rng)),
            _ => Not(s(rng)),
        }
    }
}
