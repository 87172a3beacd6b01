//! C13: histories of pipeline steps, replayed on real messages with everything observed after every step.
use crate::dict::*; use crate::frame::*; use crate::gen_::*; use crate::pipe; use crate::total::par; use crate::tree::*;
use dataflow_rs::engine::FunctionConfig;
use dataflow_rs::engine::message::{Change, Message};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::fmt::Write;
/// canonical text of a value: keys sorted, times numbered by first appearance in the history (or all the same)
fn canon(v: &Value, times: &mut Option<&mut Vec<String>>, o: &mut String) {
    match v {
        Value::Object(m) => {
            let timed = m.contains_key("valid") || m.contains_key("validated");
            let mut ks: Vec<&String> = m.keys().collect(); ks.sort();
            o.push('{');
            for k in ks {
                let _ = write!(o, "{}:", jstr(k));
                match &m[k] {
                    Value::String(t) if timed && k == "timestamp" => match times {
                        None => o.push_str("\"T\""),
                        Some(ts) => { let i = ts.iter().position(|x| x == t).unwrap_or_else(|| { ts.push(t.clone()); ts.len() - 1 }); let _ = write!(o, "\"T{i}\""); }
                    },
                    x => canon(x, times, o),
                }
                o.push(',');
            }
            o.push('}');
        }
        Value::Array(a) => { o.push('['); for x in a { canon(x, times, o); o.push(',') } o.push(']') }
        x => o.push_str(&x.to_string()),
    }
}
#[derive(Clone)]
struct Val { pay: usize, strc: usize, wrap: usize, cn: usize, publish: String, gen_: String, valid: bool, null: bool, mt: String }
/// numbers of values and contents, and what each step makes of each on a message of its own
struct World { ids: HashMap<String, usize>, vals: Vec<Option<Val>>, conts: HashMap<String, usize>, cfacts: Vec<(String, String)>, times: Vec<String> }
impl World {
    fn new() -> World { let mut w = World { ids: HashMap::new(), vals: vec![], conts: HashMap::new(), cfacts: vec![], times: vec![] }; w.id(&Value::Null, false); w }
    fn raw(&mut self, s: String) -> (usize, bool) {
        if let Some(i) = self.ids.get(&s) { return (*i, false) }
        self.vals.push(None); let i = self.vals.len(); self.ids.insert(s, i); (i, true)
    }
    fn plain(&mut self, v: &Value) -> usize { let mut s = String::new(); canon(v, &mut None, &mut s); self.raw(s).0 }
    fn cont(&mut self, c: &str) -> usize {
        if let Some(i) = self.conts.get(c) { return *i }
        self.cfacts.push(Default::default()); let i = self.cfacts.len(); self.conts.insert(c.into(), i);
        let mut r = [String::new(), String::new()];
        for (k, (op, key)) in [("parse", "fact"), ("validate", "validation")].iter().enumerate() {
            let mut m = pipe::msg(Value::String(c.into()));
            r[k] = match pipe::step(&mut m, op, "payload", "fact") {
                Ok(Ok(_)) => { let (v, e) = (m.data().get("fact").cloned().unwrap_or(Value::Null), m.metadata().get(*key).cloned().unwrap_or(Value::Null)); let (a, b) = (self.plain(&v), self.plain(&e)); format!("[\"ok\",{a},{b}]") }
                _ => "[\"!\"]".into(),
            };
        }
        let [a, b] = r;
        self.cfacts[i - 1] = (a, b);
        i
    }
    /// number of a value; deep: also what the steps make of it
    fn id(&mut self, v: &Value, payload: bool) -> usize {
        let mut s = String::new();
        let mut ts = std::mem::take(&mut self.times);
        canon(v, &mut Some(&mut ts), &mut s);
        self.times = ts;
        let (i, _) = self.raw(s);
        if self.vals[i - 1].is_none() {
            let cn = self.plain(v);
            let strc = v.as_str().map_or(0, |s| self.cont(s));
            let wrap = v.get("mx_message").and_then(Value::as_str).map_or(0, |s| self.cont(s));
            let mut m = pipe::msg(Value::Null); m.context["data"] = json!({"s": v});
            let publish = match pipe::step(&mut m, "publish", "s", "fact") { Ok(Ok(_)) => { let x = m.data()["fact"].clone(); format!("[\"ok\",{}]", self.plain(&x)) } _ => "[\"!\"]".into() };
            self.vals[i - 1] = Some(Val { pay: 0, strc, wrap, cn, publish, gen_: "[\"!\"]".into(), valid: v["valid"] == json!(true), null: v.is_null(), mt: v["message_type"].as_str().unwrap_or("").into() });
        }
        if payload && self.vals[i - 1].as_ref().unwrap().pay == 0 {
            let c = match v { Value::String(s) => s.clone(), v => v.to_string().trim_matches('"').to_string() };
            let pay = self.cont(&c);
            let mut g = vec![];
            for _ in 0..2 {
                let mut m = pipe::msg(v.clone());
                g.push(match pipe::step(&mut m, "generate", "", "fact") { Ok(Ok(_)) => { let x = m.data()["fact"].clone(); format!("[\"ok\",{}]", self.plain(&x)) } _ => "[\"!\"]".into() });
            }
            let e = self.vals[i - 1].as_mut().unwrap();
            e.pay = pay; e.gen_ = if g[0] == g[1] { g[0].clone() } else { "[\"any\"]".into() };
        }
        i
    }
    fn facts(&self) -> String {
        let vs: Vec<String> = self.vals.iter().enumerate().map(|(i, v)| match v {
            Some(v) => format!("{{\"pay\":{},\"str\":{},\"wrap\":{},\"cn\":{},\"pub\":{},\"gen\":{},\"valid\":{},\"null\":{},\"mt\":{}}}", v.pay, v.strc, v.wrap, v.cn, v.publish, v.gen_, v.valid, v.null, jstr(&v.mt)),
            None => format!("{{\"pay\":0,\"str\":0,\"wrap\":0,\"cn\":{},\"pub\":[\"!\"],\"gen\":[\"!\"],\"valid\":false,\"null\":false,\"mt\":\"\"}}", i + 1),
        }).collect();
        let cs: Vec<String> = self.cfacts.iter().map(|c| format!("[{},{}]", c.0, c.1)).collect();
        format!("{{\"a\":\"Facts\",\"null\":1,\"vals\":[{}],\"conts\":[{}]}}", vs.join(","), cs.join(","))
    }
    fn pairs(&mut self, v: &Value, skip: &[&str]) -> String {
        let Some(m) = v.as_object() else { return "[]".into() };
        let l: Vec<(String, Value)> = m.iter().filter(|(k, _)| !skip.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect();
        format!("[{}]", l.iter().map(|(k, v)| format!("[{},{}]", jstr(k), self.id(v, false))).collect::<Vec<_>>().join(","))
    }
    /// the whole message as event members
    fn snapshot(&mut self, m: &mut Message) -> String {
        let ctx = m.get_context_arc();
        let cur = self.whole(&m.context.clone());
        let ctx = self.whole(&ctx);
        let (dobj, mobj) = (m.context.get("data").is_some_and(Value::is_object), m.context.get("metadata").is_some_and(Value::is_object));
        let mut rest = m.context.clone();
        if dobj { rest["data"] = Value::Null }
        if mobj { rest["metadata"] = Value::Null }
        let rest = json!([rest, m.id, serde_json::to_value(&m.audit_trail).unwrap(), serde_json::to_value(&m.errors).unwrap()]);
        let rest = self.whole(&rest);
        let (d, e) = (if dobj { m.data().clone() } else { json!({}) }, if mobj { m.metadata().clone() } else { json!({}) });
        let (d, e) = (self.pairs(&d, &[]), self.pairs(&e, &[]));
        let p = (*m.payload).clone();
        let p = self.id(&p, true);
        format!("\"payload\":{p},\"dobj\":{dobj},\"mobj\":{mobj},\"data\":{d},\"meta\":{e},\"rest\":{rest},\"cur\":{cur},\"ctx\":{ctx}")
    }
    /// number of a value nothing is done with
    fn whole(&mut self, v: &Value) -> usize {
        let mut s = String::from("w"); let mut ts = std::mem::take(&mut self.times);
        canon(v, &mut Some(&mut ts), &mut s); self.times = ts;
        // kept apart from the values: negative numbers would do as well
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h);
        (h.finish() % 1_000_000_007) as usize
    }
    fn changes(&mut self, c: &[Change]) -> String {
        format!("[{}]", c.iter().map(|c| { let (a, b) = (self.id(&c.old_value, false), self.id(&c.new_value, false)); format!("[{},{a},{b}]", jstr(&c.path)) }).collect::<Vec<_>>().join(","))
    }
}
/// the values the specification's names stand for
struct Cast { x: String, b: String, j: Value, junk: String, mt: String }
impl Cast {
    fn new(d: &Dict, p: &mut Pool, k: usize) -> Cast {
        locals_reset();
        let m = p.next(true);
        let junk = ["", "<Document><", "not xml", "<AppHdr></AppHdr><Document></Document>", "{}", "<Document><Unknown></Unknown></Document>", "<Envelope></Envelope>", "\"<Document>\""][k % 8].to_string();
        Cast { x: m.xml(d), b: crate::verdict::bare_text(d, &m), j: serde_json::from_str(&m.json(d)).unwrap(), junk, mt: m.root(d).mt.clone() }
    }
    fn val(&self, n: &str) -> Value {
        match n {
            "X" => json!(self.x), "B" => json!(self.b), "junk" => json!(self.junk), "J" => self.j.clone(), "W" => json!({"mx_message": self.x, "note": 1}), "num" => json!(7), "null" => Value::Null,
            "S" => json!({"variables": {}, "schema": self.j}), "R" => json!({"schema": {"mx_message": self.x, "kind": "generated"}}), "F" => json!({"schema": {"mx_message": {"fake": ["uuid"]}}}),
            "m0" => json!({"message_type": "old", "format": "json"}), "m1" => json!(["kept", 1]), "O" => json!({"b": self.x, "mx_message": {"a": 1}, "0": self.b, "a": {"b": self.b, "x": null}}), "L" => json!([self.x, {"b": self.b}]), "D" => json!({"Document": self.j["Document"]}), x => json!(x),
        }
    }
    fn start(&self, payload: &str, dobj: bool, mobj: bool, data: &[(String, String)], meta: &[(String, String)], k: usize) -> Message {
        let mut m = pipe::msg(self.val(payload));
        m.context["temp_data"] = json!({"t": {"data": 1}});
        for (k, v) in data { m.context["data"][k] = self.val(v) }
        for (k, v) in meta { m.context["metadata"][k] = self.val(v) }
        for (is, n, k) in [(dobj, "data", k), (mobj, "metadata", k / 3)] {
            if !is { match k % 5 { 0 => { m.context.as_object_mut().unwrap().remove(n); } j => m.context[n] = [json!([1]), json!("x"), Value::Null, json!([{"a": self.x}])][j - 1].clone() } }
        }
        m
    }
}
fn cfg(op: &str, src: &str, tgt: &str, c: &str, k: usize) -> FunctionConfig {
    match c {
        "nosrc" => pipe::custom(op, [json!({"target": tgt}), json!({"source": 1, "target": tgt}), json!({"source": null, "target": tgt})][k % 3].clone()),
        "notgt" => pipe::custom(op, [json!({"source": src}), json!({"source": src, "target": ["a"]}), json!(null)][k % 3].clone()),
        "wrong" => serde_json::from_value(json!({"name": "map", "input": {"mappings": []}})).unwrap(),
        _ => pipe::custom(op, pipe::st(src, tgt)),
    }
}
fn pairs_of(v: &Value) -> Vec<(String, String)> { v.as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect()).unwrap_or_default() }
fn run_step(w: &mut World, m: &mut Message, op: &str, src: &str, tgt: &str, c: &str, k: usize) -> String {
    let r = pipe::step_cfg(m, op, &cfg(op, src, tgt, c, k));
    let (o, st, ch) = match &r { Ok(Ok((st, ch))) => ("ok", *st, w.changes(ch)), Ok(Err(_)) => ("error", 0, "[]".into()), Err(_) => ("panic", 0, "[]".into()) };
    let snap = w.snapshot(m);
    format!("{{\"a\":\"Step\",\"op\":\"{op}\",\"src\":{},\"tgt\":{},\"cfg\":\"{c}\",\"out\":\"{o}\",\"status\":{st},\"ch\":{ch},{snap}}}", jstr(src), jstr(tgt))
}
pub fn c13(d: &Dict, seed: u64, thorough: bool, dir: &str, work: &str) {
    std::fs::create_dir_all(dir).unwrap();
    let mut hist = lines(work, "pipe1"); hist.extend(lines(work, "pipe2"));
    let n = hist.len();
    let done = par(8, |k| {
        let mut w = World::new(); let mut o = vec![];
        let mut p = Pool::new(d, seed, &format!("c13{k}"));
        let mut g = Rng::new(seed, &format!("c13{k}"));
        for _ in 0..k * 3 { p.next(true); }
        let mut c = Cast::new(d, &mut p, k);
        let (mut nh, mut ns, mut nf) = (0, 0, 0);
        for (q, h) in hist.iter().skip(k).step_by(8).enumerate() {
            if q % 100 == 0 { c = Cast::new(d, &mut p, q / 100 + k) }
            w.times.clear();
            let s = &h["start"];
            let mut m = c.start(s["payload"].as_str().unwrap(), s["dobj"].as_bool().unwrap(), s["mobj"].as_bool().unwrap(), &pairs_of(&s["data"]), &pairs_of(&s["meta"]), q + k);
            o.push(format!("{{\"a\":\"Start\",{}}}", w.snapshot(&mut m)));
            for st in h["steps"].as_array().unwrap() {
                let f = |k: &str| st[k].as_str().unwrap();
                o.push(run_step(&mut w, &mut m, f("op"), f("src"), f("tgt"), f("cfg"), q)); ns += 1;
            }
            nh += 1;
        }
        // long random histories
        for h in 0..if thorough { 100 } else { 16 } {
            c = Cast::new(d, &mut p, g.below(100));
            w.times.clear();
            // plain names, and names a path language would take apart
            let all = ["payload", "a", "b", "c.d", "validation", "", "mx_message", "a.b", "a/b", "/a", "a.mx_message", "0", "é", "$x", "~1", "a[0]", "data", "data.a", "metadata", "temp_data", "#a", " a", "A", "*", "valid", "message_type"];
            let names: Vec<&str> = (0..7).map(|i| if g.chance(1, 3) { all[i] } else { all[g.below(all.len())] }).collect();
            let vals = ["X", "B", "junk", "J", "W", "num", "O", "D", "L", "null"];
            let mut data: Vec<(String, String)> = (0..g.below(4)).map(|_| (names[g.below(7)].to_string(), vals[g.below(10)].to_string())).collect();
            if g.chance(1, 2) { data.push(("a".into(), ["O", "W", "L"][g.below(3)].into())) }
            // a crowded message: many members, long names
            let crowd = h % 5 == 4;
            if crowd { for i in 0..[30, 90, 300][g.below(3)] { data.push((format!("k{i}{}", if i % 10 == 0 { "é".repeat(200) } else { String::new() }), vals[g.below(10)].to_string())) } }
            let mut meta: Vec<(String, String)> = (0..g.below(3)).map(|_| (names[g.below(7)].to_string(), ["m0", "m1", "O"][g.below(3)].to_string())).collect();
            if crowd { for i in 0..60 { meta.push((format!("m{i}"), ["m0", "m1", "O"][i % 3].to_string())) } }
            let mut m = c.start(["X", "B", "junk", "S", "R", "F", "num", "J", "W"][g.below(9)], h % 7 != 6, h % 7 != 5, &data, &meta, h / 7);
            o.push(format!("{{\"a\":\"Start\",{}}}", w.snapshot(&mut m)));
            for q in 0..40 {
                let (op, src, tgt) = (pipe::OPS[g.below(4)], names[g.below(7)], names[g.below(7)]);
                let cf = if g.chance(1, 15) { ["nosrc", "notgt", "wrong"][g.below(3)] } else { "ok" };
                o.push(run_step(&mut w, &mut m, op, src, tgt, cf, q)); ns += 1;
            }
            nh += 1;
        }
        // workflows with conditions, run by the engine
        for _ in 0..if thorough { 800 } else { 80 } {
            c = Cast::new(d, &mut p, g.below(100));
            w.times.clear();
            o.push(flow(&mut w, &c, &mut g)); nf += 1;
        }
        let mut text = w.facts(); text.push('\n');
        for l in &o { text.push_str(l); text.push('\n') }
        std::fs::write(format!("{dir}/t.{k}.ndjson"), text).unwrap();
        vec![format!("{nh} {ns} {nf}")]
    });
    let mut t = [0; 3];
    for l in &done { for (i, x) in l.split(' ').enumerate() { t[i] += x.parse::<usize>().unwrap() } }
    println!("{{\"histories_from_spec\":{n},\"histories\":{},\"steps\":{},\"workflows\":{}}}", t[0], t[1], t[2]);
}
fn flow(w: &mut World, c: &Cast, g: &mut Rng) -> String {
    use dataflow_rs::engine::{Engine, Workflow};
    let names = ["a", "b", "v"];
    let vals = ["X", "B", "junk", "J", "W", "num"];
    let data: Vec<(String, String)> = (0..g.below(3)).map(|_| (names[g.below(3)].to_string(), vals[g.below(6)].to_string())).collect();
    let mut m = c.start(["X", "B", "junk", "S", "R"][g.below(5)], true, true, &data, &[], 0);
    let mut tasks = vec![]; let mut js = vec![];
    for k in 1..=3 + g.below(6) {
        let op = pipe::OPS[[0, 0, 1, 1, 2, 2, 3][g.below(7)]];
        let (src, tgt) = (["payload", "a", "b", "v"][g.below(4)], names[g.below(3)]);
        let n = names[g.below(3)];
        let (logic, cond) = match g.below(6) {
            0 | 1 => (json!(true), json!(["always"])),
            2 | 3 => (json!({"===": [{"var": format!("data.{n}.valid")}, true]}), json!(["valid", n])),
            4 => (json!({"!==": [{"var": format!("data.{n}")}, null]}), json!(["has", n])),
            _ => { let mt = if g.chance(2, 3) { c.mt.clone() } else { "pacs.008".into() }; (json!({"===": [{"var": format!("metadata.{n}.message_type")}, mt]}), json!(["type", n, mt])) }
        };
        tasks.push(json!({"id": format!("t{k}"), "name": "t", "condition": logic, "continue_on_error": true, "function": {"name": format!("{op}_mx"), "input": {"source": src, "target": tgt}}}));
        js.push(json!({"op": op, "src": src, "tgt": tgt, "cfg": "ok", "cond": cond}));
    }
    let wf = Workflow::from_json(&json!({"id": "w", "name": "w", "priority": 0, "continue_on_error": true, "tasks": tasks}).to_string()).expect("workflow");
    let engine = Engine::new(vec![wf], Some(mx_message::register_mx_functions().into_iter().map(|(n, h)| (n.to_string(), h)).collect()));
    let start = w.snapshot(&mut m);
    let ok = crate::ops::guard(|| tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(engine.process_message(&mut m)).is_ok()).unwrap_or(false);
    let skip = ["progress", "processed_at", "engine_version"];
    let (fd, fm) = (m.data().clone(), m.metadata().clone());
    let (fd, fm) = (w.pairs(&fd, &[]), w.pairs(&fm, &skip));
    let audit: Vec<String> = m.audit_trail.clone().iter().map(|a| format!("[{},{},{}]", &a.task_id[1..], a.status >= 400, w.changes(&a.changes))).collect();
    format!("{{\"a\":\"Flow\",{start},\"tasks\":{},\"audit\":[{}],\"fdata\":{fd},\"fmeta\":{fm},\"ok\":{ok}}}", Value::Array(js), audit.join(","))
}
