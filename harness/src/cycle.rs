//! C14: publishing and parsing in turn, from every place a message can be parsed from.
use crate::dict::*; use crate::pipe; use crate::rules::finish; use crate::tree::*; use crate::verdict::{place, PLACES}; use crate::wire::*; use crate::wirechecks::*;
use serde_json::{Value, json};
/// value stored by a step as data.tgt, or Err(what went wrong)
fn run(m: &mut dataflow_rs::engine::message::Message, op: &str, src: &str, tgt: &str) -> Result<Value, String> {
    match pipe::step(m, op, src, tgt) { Ok(Ok(_)) => m.data().get(tgt).cloned().ok_or("nothing stored".into()), Ok(Err(e)) => Err(e), Err(p) => Err(format!("panic {p}")) }
}
/// distinct outcomes of one event, numbered from 1
struct Seen { js: Vec<String>, xs: Vec<String> }
impl Seen {
    fn no(l: &mut Vec<String>, s: String) -> usize { l.iter().position(|x| *x == s).unwrap_or_else(|| { l.push(s); l.len() - 1 }) + 1 }
    fn j(&mut self, d: &Dict, v: &Result<Value, String>) -> usize {
        let s = match v { Ok(v) => read_json(d, &v.to_string()), Err(e) => format!("[\"!\",{}]", jstr(e)) };
        Self::no(&mut self.js, s)
    }
    /// 0: no XML
    fn x(&mut self, v: &Result<Value, String>) -> usize { match v { Ok(Value::String(s)) => Self::no(&mut self.xs, s.clone()), _ => 0 } }
}
pub fn c14(d: &Dict, seed: u64, thorough: bool, dir: &str) {
    let n = if thorough { 200 } else { 20 };
    let all = each_mx(d, seed, n, "c14", |mx, k, _| {
        let mut s = Seen { js: vec![], xs: vec![] };
        let v: Value = serde_json::from_str(&mx.json(d)).unwrap();
        let mut m = pipe::msg(json!("unrelated"));
        m.context["data"] = json!({"j": v});
        let x1 = run(&mut m, "publish", "j", "x");
        // the same XML from the other places, in messages of their own
        let from: Vec<String> = PLACES.iter().map(|p| {
            let r = match &x1 { Ok(x) => { let (mut m, src) = place(p, x.clone()); run(&mut m, "parse", src, "out") } Err(e) => Err(e.clone()) };
            format!("[\"{p}\",{}]", s.j(d, &r))
        }).collect();
        // and on in the same message, a few rounds, over the same or fresh names
        let mut xs = vec![s.x(&x1)]; let mut js = vec![];
        let (mut jn, mut xn) = ("j".to_string(), "x".to_string());
        for r in 0..if k % 4 == 0 { 4 } else { 2 } {
            if k % 2 == 0 { jn = format!("j{r}"); }
            let j = run(&mut m, "parse", &xn, &jn); js.push(s.j(d, &j));
            if k % 3 == 0 { xn = format!("x{r}"); }
            let x = run(&mut m, "publish", &jn, &xn); xs.push(s.x(&x));
        }
        let w = |l: &[usize]| l.iter().map(usize::to_string).collect::<Vec<_>>().join(",");
        (format!("\"a\":\"Cycle\",\"forms\":[{}],\"from\":[{}],\"js\":[{}],\"xs\":[{}]", s.js.join(","), from.join(","), w(&js), w(&xs)), mx.leaves() * (1 + s.js.len()))
    });
    finish(all, dir, 8);
}
