//! Message generator.  Coverage mode cycles every value of every text field's value list through every field of every
//! structure; sparse mode draws random shapes.
use crate::dict::*;
use crate::tree::Node;
use std::collections::HashMap;
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, salt: &str) -> Rng { let mut h = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678; for b in salt.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3) } let mut r = Rng(h); r.next(); r }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
}
/// content of an earlier component of the same type as field i
fn d_twin(d: &Dict, t: usize, i: usize, fs: &[Vec<Node>]) -> Option<Node> {
    let l = d.ty(t);
    (0..fs.len()).rev().find(|k| l[*k].k == "t" && l[*k].r == l[i].r && !fs[*k].is_empty()).map(|k| fs[k][0].clone())
}
#[derive(Clone, Copy, PartialEq)]
pub enum Leaf { Cover, Clean, Any, Hostile }
pub struct Gen<'a> {
    pub d: &'a Dict, pub rng: Rng, pub leaf: Leaf,
    /// probability (in 1/100) that an optional component with nothing left to cover is present
    pub popt: usize, pub pvec: usize, pub bigvec: usize, pub budget: i64,
    /// only values for which this holds are used for text
    pub ok: fn(&str) -> bool,
    next: HashMap<(usize, usize), usize>, left: HashMap<usize, usize>, reach: HashMap<usize, Vec<usize>>,
    /// numbers are the last listed one (17 significant digits), which is otherwise not used
    pub long: bool,
    /// coverage is of codes only, not of text values
    pub codes_only: bool,
    /// coverage is of the special texts instead of the values of the class
    pub special: bool,
    /// coverage is of the domain list
    pub dom: bool,
    /// no text begins or ends with white space
    pub trim: bool,
    pub used: usize, pub sites: usize,
}
impl<'a> Gen<'a> {
    pub fn new(d: &'a Dict, seed: u64, salt: &str, leaf: Leaf) -> Gen<'a> {
        Gen { d, rng: Rng::new(seed, salt), leaf, popt: 20, pvec: 25, bigvec: 0, budget: i64::MAX, ok: |_| true, next: HashMap::new(), left: HashMap::new(), reach: HashMap::new(), long: false, codes_only: false, special: false, dom: false, trim: false, used: 0, sites: 0 }
    }
    /// start coverage of the types below root t (forgets previous coverage)
    pub fn begin(&mut self, t: usize) {
        self.next.clear(); self.left.clear(); self.reach.clear(); self.sites = 0;
        self.walk(t);
    }
    /// number of text values to be shown in a field of class c
    fn texts(&self, c: usize) -> usize { if self.codes_only { 0 } else if self.special { SPECIAL.len() } else if self.dom { self.d.dom.len() } else { self.d.classes[c - 1].w.len() } }
    fn walk(&mut self, t: usize) -> Vec<usize> {
        if let Some(r) = self.reach.get(&t) { return r.clone() }
        let mut r = vec![t]; let mut n = 0;
        for f in self.d.ty(t) {
            match f.k.as_str() {
                "s" => { n += self.texts(f.r); self.sites += 1 }
                "e" => n += self.d.enums[f.r - 1].len(),
                "t" => for x in self.walk(f.r) { if !r.contains(&x) { r.push(x) } },
                _ => {}
            }
        }
        self.left.insert(t, n);
        self.reach.insert(t, r.clone());
        r
    }
    pub fn uncovered(&self, t: usize) -> usize { self.reach[&t].iter().map(|x| self.left[x]).sum() }
    fn wants(&self, t: usize) -> bool { self.leaf == Leaf::Cover && self.reach.get(&t).is_some_and(|r| r.iter().any(|x| self.left[x] > 0)) }
    pub fn leaf(&mut self, t: usize, i: usize) -> Node {
        let f = &self.d.ty(t)[i];
        self.used += 1; self.budget -= 1;
        let n = match f.k.as_str() { "s" => self.d.classes[f.r - 1].w.len(), "n" => self.d.nums.len() - 1, "b" => 2, "e" => self.d.enums[f.r - 1].len(), _ => unreachable!() };
        if f.k == "s" && self.leaf == Leaf::Hostile && self.rng.chance(2, 3) {
            let mut t = hostile(&mut self.rng);
            if self.trim { t = t.trim_matches([' ', '\t', '\n', '\r']).to_string() }
            return Node::L(self.d.leaf_of(f.r, &t));
        }
        if f.k == "s" && (self.leaf != Leaf::Cover || self.codes_only) {
            if self.leaf == Leaf::Clean && self.rng.chance(3, 4) { return Node::L(1) }
            for _ in 0..50 { let w = 1 + self.rng.below(n) as i64; let t = self.d.text(f, w); if (self.ok)(&t) && !(self.trim && t.trim_matches([' ', '\t', '\n', '\r']).len() < t.len()) { return Node::L(w) } }
            return Node::L(1);
        }
        if f.k == "s" || f.k == "e" {
            let n = if f.k == "s" { self.texts(f.r) } else { n };
            let start = (t * 7 + i * 3) % n;
            let c = self.next.entry((t, i)).or_insert(0);
            *c += 1;
            if *c <= n { if let Some(l) = self.left.get_mut(&t) { *l -= 1 } }
            let v = (start + *c - 1) % n;
            return Node::L(if f.k == "s" && self.special { self.d.leaf_of(f.r, SPECIAL[v]) } else if f.k == "s" && self.dom { 1001 + v as i64 } else { 1 + v as i64 });
        }
        if f.k == "n" && self.long { return Node::L(self.d.nums.len() as i64) }
        Node::L(1 + self.rng.below(n) as i64)
    }
    pub fn build(&mut self, t: usize) -> Node {
        let mut fs = vec![];
        for (i, f) in self.d.ty(t).iter().enumerate() {
            let uncovered_leaf = self.leaf == Leaf::Cover && (f.k == "e" || (f.k == "s" && !self.codes_only)) && {
                let n = if f.k == "s" { self.texts(f.r) } else { self.d.enums[f.r - 1].len() };
                self.next.get(&(t, i)).copied().unwrap_or(0) < n
            };
            let want = uncovered_leaf || (f.k == "t" && self.wants(f.r));
            let p = if self.budget <= 0 { 0 } else { self.popt };
            let present = f.o == 0 || want || self.rng.chance(p, 100);
            let mut k = if present { 1 } else { 0 };
            if present && f.v == 1 {
                if uncovered_leaf && self.special { k = 4 }
                if self.budget > 0 && self.rng.chance(self.pvec, 100) { k += 1 + self.rng.below(2) }
                if self.budget > 0 && self.bigvec > 0 && self.rng.chance(1, 12) { k = self.bigvec }
            }
            let mut inst = vec![];
            for j in 0..k {
                // now and then the same once more: as the instance before, or as another component of the same type
                if self.leaf != Leaf::Cover && (j > 0 || f.k == "t") && self.rng.chance(1, if j > 0 { 4 } else { 8 }) {
                    let twin: Option<Node> = if j > 0 { inst.last().cloned() } else { d_twin(self.d, t, i, &fs) };
                    if let Some(x) = twin { let n = x.leaves(); self.used += n; self.budget -= n as i64; inst.push(x); continue }
                }
                inst.push(if f.k == "t" { self.build(f.r) } else { self.leaf(t, i) })
            }
            fs.push(inst);
        }
        Node::S(fs)
    }
}

const BITS: &[&str] = &["<", ">", "&", "\"", "'", "]]>", "<!--", "-->", "<![CDATA[", "&amp;", "&lt;", "&#65;", "&#x0;", "<?xml?>", "<AppHdr>", "</AppHdr>", "<Document>", "</Document>",
    "<Document", "</Envelope>", "<MsgDefIdr>pacs.002.001.10</MsgDefIdr>", "xmlns=\"urn:x\"", "xmlns:xsi=\"y\"", "BusinessApplicationHeaderV02", "<BusinessApplicationHeaderV02>", "ReceiptV08", "<ReceiptV08>",
    "\\", "\\n", "\n", "\r", "\r\n", "\t", " ", "  ", "a", "Z9", ".", "/", "é", "日本", "😀", "\u{a0}", "\u{2003}", "\u{2028}", "\u{feff}", "\u{fffd}", "\u{7f}", "\u{85}", "%s", "{}", "null", "true", "1e5", "$value", "@Ccy", "\u{10ffff}"];
/// texts that conversions like to tamper with: blank, padded, with inner white space, markup, escapes, names of values, case, numerals, long, not normalised
pub const SPECIAL: &[&str] = &["", " ", " a", "b ", "a  b", "a\nb", "a\r\nb\t", "<&>\"'", "]]>", "&amp;", "\\n", "\\", "null", "true", "NOTPROVIDED", "NONE", "N/A", "aBc", "ABC", "00.10", "1e3", "-0", "2024-02-30", "2024-01-01T00:00:00.000Z",
    "e\u{301}\u{e9}", "\u{a0}", "\u{feff}x", "日本😀", "\u{fffd}\u{7f}\u{85}", "{\"a\":[1]}", "$value",
    "2024-01-01T00:00:00Z", "2024-12-31T24:00:00.120+00:00", "20240101", "0001", "+1", "1,000.50", "DE89 3704 0044 0532 0130 00", "ABCDEF12-3456-4ABC-8DEF-0123456789AB", "-x/", "--", "O'Neil & <Co>", "a//b:c?", "%20${x}{{y}}", "\\u0041\\t", "stra\u{df}e \u{130}\u{131}\u{17f}", "\u{fb01}\u{ff11}\u{ff21}",
    "a\u{ad}\u{200d}\u{202e}b", "<Document>", "AppHdr", "MsgDefIdr", "xsi:nil=\"true\"", "false", "Y", "1", "0", "-", ".", "/", "a.", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx."];
/// text over the fragments that matter to the wire formats (all characters legal in XML)
pub fn hostile(r: &mut Rng) -> String {
    let n = match r.below(8) { 0 => 0, 1 => 1, 2 | 3 => 2, 4 | 5 => 3, 6 => 5, _ => 9 };
    let mut s = String::new();
    for _ in 0..n {
        if r.chance(1, 5) {
            loop {
                let c = match r.below(4) { 0 => 32 + r.below(95) as u32, 1 => 0xA0 + r.below(0x500) as u32, 2 => 0x800 + r.below(0xD000) as u32, _ => 0x10000 + r.below(0x30000) as u32 };
                if let Some(c) = char::from_u32(c) { if !matches!(c as u32, 0xFFFE | 0xFFFF) { s.push(c); break } }
            }
        } else { s.push_str(BITS[r.below(BITS.len())]) }
    }
    s
}
