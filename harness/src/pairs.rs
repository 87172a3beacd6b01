//! Pairs of neighbours: messages in which, within every structure, every pair of fields meets in every pair of states
//! (absent, valid, broken in each way its values can break it, each code, each boolean, one or several instances).
use crate::dict::*; use crate::gen_::*; use crate::tree::*;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St { Absent, Text(u8), Code(i64), Any, Flag(i64), Sub, Many }
pub fn states(d: &Dict, f: &Field, short: bool) -> Vec<St> {
    let mut v = vec![];
    if f.o == 1 { v.push(St::Absent) }
    match f.k.as_str() {
        "s" => { let mut gs = d.classes[f.r - 1].g.clone(); gs.sort(); gs.dedup(); v.extend(gs.into_iter().map(St::Text)) }
        "e" => { let n = d.enums[f.r - 1].len(); if short && n > 6 { v.push(St::Any) } else { v.extend((1..=n as i64).map(St::Code)) } }
        "b" => v.extend([St::Flag(1), St::Flag(2)]),
        "n" => v.push(St::Any),
        _ => v.push(St::Sub),
    }
    if f.v == 1 { v.push(St::Many) }
    v
}
pub struct Pairs<'a> { pub d: &'a Dict, pub rng: Rng, pub short: bool }
impl Pairs<'_> {
    fn text(&mut self, f: &Field, g: u8) -> Node {
        let c = &self.d.classes[f.r - 1];
        let ks: Vec<usize> = (0..c.w.len()).filter(|k| c.g[*k] == g).collect();
        // near the limits texts can be very long; prefer the others
        let mut k = ks[self.rng.below(ks.len())];
        for _ in 0..6 { if self.d.wit[c.w[k] - 1].len() > 300 { k = ks[self.rng.below(ks.len())] } }
        Node::L(1 + k as i64)
    }
    fn any(&mut self, f: &Field) -> St { let s = states(self.d, f, true); s[self.rng.below(s.len())] }
    fn value(&mut self, f: &Field, s: St, depth: usize) -> Vec<Node> {
        match s {
            St::Absent => vec![],
            St::Text(g) => vec![self.text(f, g)],
            St::Code(k) | St::Flag(k) => vec![Node::L(k)],
            St::Any => { let n = if f.k == "n" { self.d.nums.len() - 1 } else { self.d.enums[f.r - 1].len() }; vec![Node::L(1 + self.rng.below(n) as i64)] }
            St::Sub => vec![self.random(f.r, depth + 1)],
            St::Many => {
                let one: Vec<St> = states(self.d, f, self.short).into_iter().filter(|s| !matches!(s, St::Absent | St::Many)).collect();
                (0..2 + self.rng.below(2)).flat_map(|_| { let s = one[self.rng.below(one.len())]; self.value(f, s, depth) }).collect()
            }
        }
    }
    /// a structure in random states, smaller the deeper it lies
    fn random(&mut self, t: usize, depth: usize) -> Node {
        let d = self.d;
        Node::S(d.ty(t).iter().map(|f| {
            let mut s = self.any(f);
            if f.o == 1 && (f.k == "t" && self.rng.chance(depth.min(3) + 1, 4) || f.k != "t" && self.rng.chance(1, 4)) { s = St::Absent }
            if s == St::Many && depth > 1 { s = *states(d, f, true).iter().find(|s| !matches!(s, St::Absent | St::Many)).unwrap() }
            self.value(f, s, depth)
        }).collect())
    }
    /// instances of structure t that together show all pairs of states of all pairs of its fields
    pub fn instances(&mut self, t: usize) -> Vec<Node> {
        let d = self.d;
        let fs = d.ty(t);
        let st: Vec<Vec<St>> = fs.iter().map(|f| states(d, f, self.short)).collect();
        let n = fs.len();
        if n == 1 { return (0..st[0].len()).map(|k| Node::S(vec![self.value(&fs[0], st[0][k], 0)])).collect() }
        let mut open: std::collections::HashSet<(usize, usize, usize, usize)> = Default::default();
        let mut todo = vec![];
        for i in 0..n { for j in i + 1..n { for a in 0..st[i].len() { for b in 0..st[j].len() { open.insert((i, a, j, b)); todo.push((i, a, j, b)); } } } }
        for k in (1..todo.len()).rev() { let x = self.rng.below(k + 1); todo.swap(k, x) }
        let mut out = vec![];
        while let Some(p) = todo.pop() {
            if !open.contains(&p) { continue }
            let (i, a, j, b) = p;
            // the pair, then field by field the state that adds most
            let mut row = vec![usize::MAX; n];
            row[i] = a; row[j] = b;
            let mut order: Vec<usize> = (0..n).filter(|x| *x != i && *x != j).collect();
            for k in (1..order.len()).rev() { let x = self.rng.below(k + 1); order.swap(k, x) }
            for x in order {
                let start = self.rng.below(st[x].len());
                let best = (0..st[x].len()).map(|k| (k + start) % st[x].len()).max_by_key(|k| (0..n).filter(|y| row[*y] != usize::MAX && open.contains(&if x < *y { (x, *k, *y, row[*y]) } else { (*y, row[*y], x, *k) })).count()).unwrap();
                row[x] = best;
            }
            for i in 0..n { for j in i + 1..n { open.remove(&(i, row[i], j, row[j])); } }
            out.push(Node::S((0..n).map(|x| self.value(&fs[x], st[x][row[x]], 0)).collect()));
        }
        out
    }
}
