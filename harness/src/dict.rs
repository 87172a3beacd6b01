//! The specification's schema dictionary (spec/dict.json), shared with TLC.
use serde::Deserialize;
use std::cell::RefCell;
use std::collections::HashMap;
#[derive(Deserialize)]
pub struct Field { pub x: String, pub k: String, pub o: u8, pub v: u8, pub r: usize }
#[derive(Deserialize)]
pub struct Class { pub min: usize, pub max: usize, pub pat: usize, pub w: Vec<usize>, pub g: Vec<u8> }
#[derive(Deserialize)]
pub struct Pat { pub src: String, pub ast: serde_json::Value }
#[derive(Deserialize)]
pub struct RootD { pub m: String, pub t: String, pub x: String, pub r: usize, pub mt: String, pub full: String, pub el: String }
#[derive(Deserialize)]
pub struct Dict {
    pub types: Vec<Vec<Field>>, pub enums: Vec<Vec<String>>, pub pats: Vec<Pat>, pub classes: Vec<Class>, pub wit: Vec<String>,
    pub nums: Vec<String>, pub numx: Vec<(String, usize)>, pub badnums: Vec<String>, pub badbools: Vec<String>, pub dom: Vec<String>, pub roots: Vec<RootD>,
    #[serde(skip)] pub index: HashMap<String, i64>,
}
thread_local! { static LOCALS: RefCell<(Vec<String>, HashMap<String, i64>)> = RefCell::new((vec![], HashMap::new())) }
/// texts outside the dictionary, numbered -1, -2, ... within one event
pub fn locals_reset() { LOCALS.with(|l| *l.borrow_mut() = (vec![], HashMap::new())) }
fn local(s: &str) -> i64 {
    LOCALS.with(|l| {
        let mut l = l.borrow_mut();
        if let Some(i) = l.1.get(s) { return *i }
        l.0.push(s.to_string());
        let i = -(l.0.len() as i64);
        l.1.insert(s.to_string(), i);
        i
    })
}
/// code points of a text; of a very long one, its ends and a digest
fn codes(s: &str) -> Vec<u32> {
    let c: Vec<u32> = s.chars().map(|c| c as u32).collect();
    if c.len() <= 4000 { return c }
    let h = c.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3));
    let mut v = c[..20].to_vec();
    v.extend([0x200000 + c.len() as u32, 0x200000 + (h & 0xffffff) as u32, 0x200000 + (h >> 40) as u32]);
    v.extend(&c[c.len() - 20..]);
    v
}
/// the texts used since the last reset, as code points
pub fn locals_js() -> String {
    LOCALS.with(|l| format!("[{}]", l.borrow().0.iter().map(|s| format!("[{}]", codes(s).iter().map(u32::to_string).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")))
}
impl Dict {
    pub fn load() -> Dict {
        let p = std::env::var("MXV_DICT").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../spec/dict.json").to_string());
        let mut d: Dict = serde_json::from_str(&std::fs::read_to_string(p).expect("dict.json")).expect("dict.json format");
        d.index = d.wit.iter().enumerate().map(|(i, s)| (s.clone(), i as i64 + 1)).collect();
        d
    }
    pub fn ty(&self, i: usize) -> &[Field] { &self.types[i - 1] }
    /// w > 0: value w of the field's class; > 1000: of the domain list; w < 0: local text
    pub fn text(&self, f: &Field, w: i64) -> String {
        if w > 1000 { self.dom[w as usize - 1001].clone() } else if w > 0 { self.wit[self.classes[f.r - 1].w[w as usize - 1] - 1].clone() } else { LOCALS.with(|l| l.borrow().0[(-w) as usize - 1].clone()) }
    }
    /// number of a text: > 0 in the dictionary, < 0 local to the event.  Equal texts have equal numbers.
    pub fn id(&self, s: &str) -> i64 { self.index.get(s).copied().unwrap_or_else(|| local(s)) }
    /// leaf id standing for text s in a field of class c
    pub fn leaf_of(&self, c: usize, s: &str) -> i64 {
        match self.index.get(s) {
            Some(i) => match self.classes[c - 1].w.iter().position(|w| *w as i64 == *i) { Some(p) => p as i64 + 1, None => local(s) },
            None => local(s),
        }
    }
    pub fn root(&self, m: &str) -> &RootD { self.roots.iter().find(|r| r.m == m).unwrap() }
    pub fn root_ix(&self, m: &str) -> usize { self.roots.iter().position(|r| r.m == m).unwrap() + 1 }
}
