//! C15: the same operation on the same item in different histories, each history in a process of its own.
use crate::dict::*; use crate::faults::{Op, apply}; use crate::gen_::*; use crate::ops::*; use crate::pipe; use crate::total::par; use crate::tree::*; use crate::verdict::bare_text; use crate::wire::*;
use dataflow_rs::engine::{AsyncFunctionHandler, FunctionConfig};
use mx_message::mx_envelope::{self as env, MxMessage};
use mx_message::parse_result::{ErrorCollector, ParserConfig};
use mx_message::validation::helpers;
use mx_message::{message_registry as reg, plugin::common, xml as mxxml};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::process::{Command, Stdio};
use std::sync::{Arc, Condvar, Mutex, OnceLock};

// ---------------------------------------------------------------- the process running one history
/// handlers shared by all threads, as in an engine
static H: OnceLock<HashMap<String, Box<dyn AsyncFunctionHandler + Send + Sync>>> = OnceLock::new();
static ENGINE: OnceLock<dataflow_rs::engine::Engine> = OnceLock::new();
fn rt<T>(f: impl Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f) }
fn undate(v: &mut Value) {
    match v { Value::Object(m) => { m.remove("timestamp"); m.values_mut().for_each(undate) } Value::Array(a) => a.iter_mut().for_each(undate), _ => {} }
}
fn step(op: &str, data: Value, src: &str) -> String {
    let h = H.get_or_init(|| mx_message::register_mx_functions().into_iter().map(|(n, h)| (n.trim_end_matches("_mx").to_string(), h)).collect());
    let mut m = pipe::msg(json!("unrelated")); m.context["data"] = data;
    let cfg = FunctionConfig::Custom { name: format!("{op}_mx"), input: pipe::st(src, "out") };
    let dl = Arc::new(datalogic_rs::DataLogic::new());
    let r = rt(h[op].execute(&mut m, &cfg, dl));
    let mut c = m.context.clone(); undate(&mut c);
    match r { Ok((s, ch)) => { let l: Vec<String> = ch.iter().map(|c| { let (mut a, mut b) = ((*c.old_value).clone(), (*c.new_value).clone()); undate(&mut a); undate(&mut b); format!("{} {a} {b}", c.path) }).collect(); format!("{s} {l:?} {c}") } Err(e) => format!("! {e} {c}") }
}
fn engine(x: &str) -> String {
    use dataflow_rs::engine::{Engine, Workflow};
    let e = ENGINE.get_or_init(|| {
        let t = |id: &str, f: &str, s: &str, t: &str| json!({"id": id, "name": id, "function": {"name": f, "input": {"source": s, "target": t}}});
        let wf = json!({"id": "w", "name": "w", "priority": 0, "continue_on_error": true, "tasks": [t("v", "validate_mx", "payload", "v"), t("p", "parse_mx", "payload", "j"), t("q", "publish_mx", "j", "x")]});
        Engine::new(vec![Workflow::from_json(&wf.to_string()).expect("workflow")], Some(mx_message::register_mx_functions().into_iter().map(|(n, h)| (n.to_string(), h)).collect()))
    });
    let mut m = pipe::msg(json!(x));
    let ok = rt(e.process_message(&mut m)).is_ok();
    let mut d = m.data().clone(); undate(&mut d);
    format!("{ok} {d} {:?}", m.errors.iter().map(|e| format!("{e:?}").split("timestamp").next().unwrap().to_string()).collect::<Vec<_>>())
}
fn es<T, E: ToString>(r: Result<T, E>, f: impl FnOnce(T) -> String) -> String { match r { Ok(v) => f(v), Err(e) => format!("! {}", e.to_string()) } }
fn exec(op: &str, m: &str, ty: &str, x: &str) -> String {
    let done = guard(|| match op {
        "check0" | "check1" | "check2" => es((root(m).from_json)(x), |o| {
            let c = match op { "check0" => ParserConfig::default(), "check1" => ParserConfig::fail_fast(), _ => ParserConfig::lenient() };
            let mut e = ErrorCollector::new(); o.check(["", "Document"][x.len() % 2], &c, &mut e);
            format!("{} {:?}", e.has_critical_errors(), e.errors())
        }),
        "typed" => es((root(m).from_json)(x), |o| format!("{:?} {:?}", o.json(), o.xml())),
        "typedx" => es((root(m).from_xml)(x), |o| format!("{:?} {:?}", o.json(), o.xml())),
        "from_xml" => es(MxMessage::from_xml(x), |o| format!("{:?} {:?} {:?}", o.to_json().map_err(|e| e.to_string()), o.message_type().map_err(|e| e.to_string()), o.namespace().map_err(|e| e.to_string()))),
        "from_json" => es(MxMessage::from_json(x), |o| format!("{:?}", o.to_json().map_err(|e| e.to_string()))),
        "to_xml" => es(MxMessage::from_json(x), |o| format!("{:?}", o.to_xml().map_err(|e| e.to_string()))),
        "publish" => es(serde_json::from_str::<Value>(x), |v| step("publish", json!({"s": v}), "s")),
        "parse" => step("parse", json!({"s": x}), "s"),
        "validate" => step("validate", json!({"s": x}), "s"),
        "engine" => engine(x),
        "peek_xml" => es(env::peek_message_type_from_xml(x), |s| s),
        "peek_json" => es(env::peek_message_type_from_json(x), |s| s),
        "via_doc" => es(mxxml::xml_to_json_via_document(x, ty), |v| v.to_string()),
        "envelope" => es(mxxml::from_mx_xml_envelope_str(x, ty), |_| String::new()),
        "x2j" => es(mxxml::from_mx_xml_to_json(x), |v| v.to_string()),
        "type_xml" => es(common::extract_message_type_from_xml(x), |s| s),
        "lookup" => format!("{:?}", (reg::get_namespace(x), reg::normalize_message_type(x), reg::element_to_message_type(x), reg::message_type_to_element(x), reg::message_type_to_rust_type(x), reg::get_full_form(x), env::get_namespace_for_message_type(x), env::normalize_message_type(x), common::map_document_element_to_message_type(x).map_err(|e| e.to_string()))),
        // x: a rule, as JSON [value, field, pattern, min, max, path]
        "pat0" | "pat1" | "pat2" | "len0" | "len1" | "len2" | "req0" => {
            let v: Value = serde_json::from_str(x).unwrap();
            let t = |k: usize| v[k].as_str().unwrap();
            let c = match &op[3..] { "0" => ParserConfig::default(), "1" => ParserConfig::fail_fast(), _ => ParserConfig::lenient() };
            let mut e = ErrorCollector::new();
            let r = match &op[..3] {
                "pat" => helpers::validate_pattern(t(0), t(1), t(2), t(5), &c, &mut e),
                "len" => helpers::validate_length(t(0), t(1), v[3].as_u64().map(|n| n as usize), v[4].as_u64().map(|n| n as usize), t(5), &c, &mut e),
                _ => { let o = Some(t(0)).filter(|s| !s.is_empty()); helpers::validate_required(&o, t(1), t(5), &c, &mut e) }
            };
            format!("{r} {} {:?} {}", e.has_critical_errors(), e.errors(), helpers::child_path(t(5), t(1)))
        }
        x => panic!("no operation {x}"),
    });
    done.unwrap_or_else(|p| format!("panic {p}"))
}
fn hash(s: &str) -> u64 { use std::hash::{Hash, Hasher}; #[allow(deprecated)] let mut h = std::hash::SipHasher::new(); s.hash(&mut h); h.finish() }
/// run file: {"dir", "threads", "free", "items": [[op, module, type, file]], "steps": [[thread, item]]}; prints the hash of every answer
pub fn child(run: &str) {
    let r: Value = serde_json::from_str(&std::fs::read_to_string(run).unwrap()).unwrap();
    let dir = r["dir"].as_str().unwrap();
    let items: Vec<[String; 4]> = r["items"].as_array().unwrap().iter().map(|i| [0, 1, 2, 3].map(|k| i[k].as_str().unwrap().to_string())).collect();
    let mut texts: HashMap<&str, String> = HashMap::new();
    for i in &items { texts.entry(&i[3]).or_insert_with(|| std::fs::read_to_string(format!("{dir}/{}", i[3])).unwrap()); }
    let steps: Vec<(usize, usize, u64)> = r["steps"].as_array().unwrap().iter().map(|s| (s[0].as_u64().unwrap() as usize, s[1].as_u64().unwrap() as usize, s[2].as_u64().unwrap())).collect();
    let (n, free) = (r["threads"].as_u64().unwrap() as usize, r["free"].as_bool().unwrap());
    let out = Mutex::new(vec![0u64; steps.len()]);
    let (turn, cv, start) = (Mutex::new(0usize), Condvar::new(), std::sync::Barrier::new(n));
    let show = std::env::var("MXV_SHOW").is_ok();
    std::thread::scope(|s| for t in 1..=n {
        let (items, texts, steps, out, turn, cv, start) = (&items, &texts, &steps, &out, &turn, &cv, &start);
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
            start.wait();
            for (k, (th, i, times)) in steps.iter().enumerate() {
                if *th != t { continue }
                if !free { let mut g = turn.lock().unwrap(); while *g != k { g = cv.wait(g).unwrap() } }
                let [op, m, ty, f] = &items[*i];
                let t0 = std::time::Instant::now();
                let mut a = exec(op, m, ty, &texts[f.as_str()]);
                // a step repeated: the answer all repetitions give, or the first other one
                for _ in 1..*times { let b = exec(op, m, ty, &texts[f.as_str()]); if b != a { a = b; break } }
                if show && *times > 1 { eprintln!("{:?} for {times}", t0.elapsed()) }
                if show { eprintln!("{k} {op} {m} {f}: {a}") }
                out.lock().unwrap()[k] = hash(&a);
                if !free { *turn.lock().unwrap() = k + 1; cv.notify_all() }
            }
        }).unwrap();
    });
    println!("{}", out.into_inner().unwrap().iter().map(|h| format!("{h:x}")).collect::<Vec<_>>().join(" "));
}

// ---------------------------------------------------------------- items
struct Item { op: &'static str, m: String, ty: String, f: String }
struct World { dir: String, items: Vec<Item>, by: HashMap<(String, String, String), usize> }
impl World {
    fn add(&mut self, op: &'static str, m: &str, ty: &str, f: &str) {
        self.by.insert((op.into(), m.into(), f.rsplit('.').next().unwrap().into()), self.items.len());
        self.items.push(Item { op, m: m.into(), ty: ty.into(), f: f.into() })
    }
    fn file(&self, f: &str, s: &str) { std::fs::write(format!("{}/{f}", self.dir), s).unwrap() }
}
/// texts changed to other texts of the same length: every k-th text field of the tree
fn spoil(d: &Dict, t: usize, n: &mut Node, k: &mut usize, every: usize) {
    let Node::S(fs) = n else { return };
    for (i, f) in d.ty(t).iter().enumerate() {
        for x in &mut fs[i] {
            match f.k.as_str() {
                "t" => spoil(d, f.r, x, k, every),
                "s" => { *k += 1; if *k % every == 0 { let Node::L(w) = x else { unreachable!() }; let s = d.text(f, *w); if !s.is_empty() && s.is_ascii() && f.x != "MsgDefIdr" { *x = Node::L(d.leaf_of(f.r, &format!("#{}", &s[1..]))) } } }
                _ => {}
            }
        }
    }
}
const RPATS: [&str; 6] = ["[A-Z]{3,3}", "[A-Z]{2,3}", "[0-9]{1,15}", "[A-Za-z0-9]{1,3}", ".*", "("];
const RFIELDS: [&str; 4] = ["Ccy", "Cd", "Ccyy", ""];
const RVALUES: [&str; 5] = ["ABC", "AB", "123", "", "AB\u{e9}"];
const ROPS: [&str; 6] = ["pat0", "pat1", "pat2", "len0", "len2", "req0"];
const MXOPS: [(&str, &str); 12] = [("from_xml", "x"), ("from_json", "j"), ("to_xml", "j"), ("publish", "j"), ("parse", "x"), ("validate", "x"), ("engine", "x"), ("peek_xml", "x"), ("peek_json", "j"), ("envelope", "x"), ("x2j", "x"), ("type_xml", "x")];
/// operation, item, share of the calls of a marathon
const MARATHON: [(&str, &str, u64); 14] = [("pat0", "01", 1), ("pat1", "01", 1), ("len0", "01", 1), ("req0", "03", 1), ("check0", "1", 1), ("check0", "2", 1), ("typedx", "1", 1), ("peek_xml", "11", 1), ("peek_json", "11", 1), ("from_xml", "11", 1), ("to_xml", "11", 1), ("publish", "11", 1), ("parse", "11", 1), ("validate", "11", 1)];
const DOCOPS: [(&str, &str); 5] = [("via_doc", "b"), ("validate", "b"), ("parse", "b"), ("envelope", "b"), ("type_xml", "b")];
const ROOTOPS: [(&str, &str); 5] = [("check0", "o"), ("check1", "o"), ("check2", "o"), ("typed", "o"), ("typedx", "p")];
fn items(d: &Dict, seed: u64, dir: &str) -> World {
    std::fs::create_dir_all(dir).unwrap();
    let mut w = World { dir: dir.into(), items: vec![], by: HashMap::new() };
    let common = { let mut g = Gen::new(d, seed, "c15common", Leaf::Clean); (g.popt, g.budget, g.trim) = (10, 30, true); g.begin(d.root(HDR).r); let mut h = header(&mut g, "pacs.008.001.08"); set_text(d, d.root(HDR).r, &mut h, "BizMsgIdr", &"COMMON".repeat(200)); h };
    for r in &d.roots {
        let mut g = Gen::new(d, seed, &format!("c15{}", r.m), Leaf::Clean);
        (g.popt, g.pvec, g.budget, g.trim) = (40, 20, 60, true);
        g.begin(r.r);
        let good = g.build(r.r);
        let mut bad = good.clone(); spoil(d, r.r, &mut bad, &mut 0, 2);
        // documents: 1 good, 2 the same with other texts of the same lengths, 3 with a mandatory field missing, 4 everything once
        let i = d.ty(r.r).iter().position(|f| f.o == 0);
        let gone = i.map_or(bad.clone(), |i| apply(&good, &[], i, &Op::Drop));
        g.leaf = Leaf::Cover; g.popt = 100; g.budget = 4000;
        let cover = g.build(r.r);
        // 5 the same as 1 but for its last text
        let mut late = good.clone(); { let (mut c, mut k) = (0, 0); spoil(d, r.r, &mut late.clone(), &mut c, usize::MAX); spoil(d, r.r, &mut late, &mut k, c.max(1)); }
        // 6 the same but for one in the middle
        let mut mid = good.clone(); { let mut c = 0; spoil(d, r.r, &mut mid.clone(), &mut c, usize::MAX); let mut k = c + 1 - (c / 2).max(1); spoil(d, r.r, &mut mid, &mut k, c + 1); }
        let docs = [&good, &bad, &gone, &cover, &late, &mid];
        for (k, n) in docs.iter().enumerate() {
            let mut s = String::new(); json(d, r.r, n, &mut s);
            let f = format!("{}.{}", r.m, k + 1);
            w.file(&format!("o.{f}"), &s);
            s.clear(); xml(d, &r.x, r.r, n, &mut s);
            w.file(&format!("p.{f}"), &s);
            for (op, p) in ROOTOPS { w.add(op, &r.m, &r.mt, &format!("{p}.{f}")) }
        }
        if r.mt.is_empty() { continue }
        let mut gh = Gen::new(d, seed, &format!("c15h{}", r.m), Leaf::Clean);
        (gh.popt, gh.budget, gh.trim) = (10, 30, true);
        let h1 = header(&mut gh, &r.full);
        let mut h2 = h1.clone(); spoil(d, d.root(HDR).r, &mut h2, &mut 0, 1);
        // 3 a header that all types share but for the identifier
        let mut h3 = common.clone(); set_text(d, d.root(HDR).r, &mut h3, "MsgDefIdr", &r.full);
        for (hk, h) in [&h1, &h2, &h3].iter().enumerate() {
            for (k, n) in docs.iter().enumerate() {
                if hk == 1 && k >= 2 || hk == 2 && k != 0 && k != 4 { continue }
                let m = Mx { rt: d.root_ix(&r.m), h: (*h).clone(), d: (*n).clone(), ns: [None, None] };
                let f = format!("{}.{}{}", r.m, hk + 1, k + 1);
                w.file(&format!("x.{f}"), &m.xml(d)); w.file(&format!("j.{f}"), &m.json(d));
                for (op, p) in MXOPS { w.add(op, &r.m, &r.mt, &format!("{p}.{f}")) }
                if hk == 0 { w.file(&format!("b.{f}"), &bare_text(d, &m)); for (op, p) in DOCOPS { w.items.push(Item { op, m: r.m.clone(), ty: r.mt.clone(), f: format!("{p}.{f}") }) } }
            }
        }
        for (k, n) in [r.mt.clone(), r.full.clone(), r.el.clone(), format!("{}.99", r.full), r.mt.to_uppercase()].iter().enumerate() {
            let f = format!("n.{}.{k}", r.m); w.file(&f, n); w.items.push(Item { op: "lookup", m: r.m.clone(), ty: r.mt.clone(), f });
        }
    }
    // rules
    for (pi, p) in RPATS.iter().enumerate() { for (fi, f) in RFIELDS.iter().enumerate() { for (vi, v) in RVALUES.iter().enumerate() {
        let (lo, hi) = [(Some(1), Some(3)), (Some(4), None), (None, Some(2)), (Some(0), Some(35)), (None, None), (Some(3), Some(3))][pi];
        let n = format!("r.{pi}{fi}{vi}");
        w.file(&n, &json!([v, f, p, lo, hi, (["Document", "AppHdr"][fi % 2])]).to_string());
        for op in ["pat0", "pat1", "pat2", "len0", "len2", "req0"] { w.by.insert((op.into(), pi.to_string(), format!("{fi}{vi}")), w.items.len()); w.items.push(Item { op, m: pi.to_string(), ty: String::new(), f: n.clone() }) }
    } } }
    // and many more patterns than anyone would keep
    for k in 0..260 { let n = format!("r.more{k}"); w.file(&n, &json!(["ABC12", "Fld", format!("[A-Z]{{1,{}}}[0-9]{{0,{}}}", k % 20 + 1, k / 20), 1, 9, "P"]).to_string()); w.items.push(Item { op: "pat0", m: String::new(), ty: String::new(), f: n }) }
    for (k, s) in ["", "<Document><", "<Envelope><AppHdr>", "{", "<Document><Nothing/></Document>", "{\"AppHdr\":{}}"].iter().enumerate() {
        let f = format!("n.junk.{k}"); w.file(&f, s);
        for (op, _) in MXOPS { w.items.push(Item { op, m: "".into(), ty: "pacs.008".into(), f: f.clone() }) }
    }
    w
}
// ---------------------------------------------------------------- histories
/// times: how often every other step is done
struct Run { threads: usize, free: bool, steps: Vec<(usize, usize)>, kind: &'static str, times: u64 }
fn play(w: &World, tag: &str, r: &Run) -> Vec<String> {
    let mut used: Vec<usize> = r.steps.iter().map(|s| s.1).collect(); used.sort(); used.dedup();
    let it: Vec<Value> = used.iter().map(|i| { let x = &w.items[*i]; json!([x.op, x.m, x.ty, x.f]) }).collect();
    let st: Vec<Value> = r.steps.iter().enumerate().map(|(k, (t, i))| json!([t, used.binary_search(i).unwrap(), if k % 2 == 0 { r.times } else { 1 }])).collect();
    let f = format!("{}/run.{tag}", w.dir);
    std::fs::write(&f, json!({"dir": w.dir, "threads": r.threads, "free": r.free, "items": it, "steps": st}).to_string()).unwrap();
    let o = Command::new(std::env::current_exe().unwrap()).args(["c15run", &f]).stdin(Stdio::null()).stderr(Stdio::null()).output().unwrap();
    let l: Vec<String> = String::from_utf8_lossy(&o.stdout).split_whitespace().map(String::from).collect();
    // a process that died has answered nothing
    if l.len() == r.steps.len() { l } else { vec!["died".into(); r.steps.len()] }
}
fn all(w: &World, runs: &[Run], salt: &str) -> Vec<Vec<String>> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Vec<Mutex<Vec<String>>> = runs.iter().map(|_| Mutex::new(vec![])).collect();
    par(8, |k| { loop { let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst); if i >= runs.len() { return vec![] } *out[i].lock().unwrap() = play(w, &format!("{salt}{k}"), &runs[i]); } });
    out.into_iter().map(|m| m.into_inner().unwrap()).collect()
}
fn shuffle(g: &mut Rng, n: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { v.swap(i, g.below(i + 1)) } v }
pub fn c15(d: &Dict, seed: u64, thorough: bool, dir: &str, work: &str) {
    std::fs::create_dir_all(dir).unwrap();
    let w = items(d, seed, &format!("{work}/iso"));
    let n = w.items.len();
    let mut g = Rng::new(seed, "c15");
    // every item in a process of its own, twice
    let alone: Vec<Run> = (0..n).map(|i| Run { threads: 1, free: false, steps: vec![(1, i)], kind: "alone", times: 1 }).collect();
    let refs: Vec<String> = all(&w, &alone, "a").into_iter().map(|mut l| l.remove(0)).collect();
    let mut runs: Vec<Run> = (0..n).step_by(if thorough { 1 } else { 2 }).map(|i| Run { threads: 1, free: false, steps: vec![(1, i)], kind: "again", times: 1 }).collect();
    // schedules of the specification, with types, operations and variants in rotation
    let sched = crate::frame::lines(work, "schedules");
    let types = registered(d);
    let mx: Vec<(&str, &str)> = MXOPS.iter().chain(ROOTOPS[..3].iter()).copied().collect();
    let mut rule_steps = vec![];
    for round in 0..if thorough { 12 } else { 3 } {
        for (q, s) in sched.iter().enumerate() {
            let k = q + round * 7919;
            let ty = [types[g.below(types.len())], types[g.below(types.len())]];
            let op = [mx[k % mx.len()], mx[g.below(mx.len())]];
            let doc = [[1, 2], [2, 1], [1, 3], [3, 1], [4, 1], [1, 4], [2, 3], [1, 5], [5, 1], [1, 6], [6, 1]][g.below(11)];
            let steps: Option<Vec<(usize, usize)>> = s.as_array().unwrap().iter().map(|st| {
                let v = |i: usize| st[i].as_u64().unwrap() as usize;
                let (o, p) = op[v(2) - 1]; let (h, dd) = (v(3), doc[v(4) - 1]);
                let f = if p == "o" { format!("{dd}") } else { format!("{}{dd}", if dd == 5 { [1, 3][h - 1] } else if dd > 2 { 1 } else if dd == 1 && h == 2 && k % 2 == 0 { 3 } else { h }) };
                w.by.get(&(o.to_string(), d.roots[ty[v(1) - 1] - 1].m.clone(), f)).map(|i| (v(0), *i))
            }).collect();
            // the same schedule of rules: patterns for types, fields for headers, values for documents
            for _ in 0..6 {
                let (pt, fd, vl, ro) = ([g.below(6), g.below(6)], [g.below(4), g.below(4)], [g.below(5), g.below(5)], [ROPS[k % 6], ROPS[g.below(6)]]);
                let rules: Vec<(usize, usize)> = s.as_array().unwrap().iter().map(|st| { let v = |i: usize| st[i].as_u64().unwrap() as usize; (v(0), w.by[&(ro[v(2) - 1].to_string(), pt[v(1) - 1].to_string(), format!("{}{}", fd[v(3) - 1], vl[v(4) - 1]))]) }).collect();
                rule_steps.push(rules);
            }
            if let Some(steps) = steps { runs.push(Run { threads: steps.iter().map(|s| s.0).max().unwrap(), free: false, steps, kind: "spec", times: 1 }) }
        }
    }
    // rules are quick: many schedules of them after each other in one process
    for c in rule_steps.chunks(1500) {
        let steps: Vec<(usize, usize)> = c.iter().flatten().copied().collect();
        runs.push(Run { threads: steps.iter().map(|s| s.0).max().unwrap(), free: false, steps, kind: "rules", times: 1 });
    }
    for c in rule_steps.iter().step_by(100) { runs.push(Run { threads: c.iter().map(|s| s.0).max().unwrap(), free: false, steps: c.clone(), kind: "rule", times: 1 }) }
    // long histories in one thread: forward, backward, random, with repeats
    let line = |v: Vec<usize>, kind| Run { threads: 1, free: false, steps: v.into_iter().map(|i| (1, i)).collect(), kind, times: 1 };
    runs.push(line((0..n).collect(), "order"));
    runs.push(line((0..n).rev().collect(), "order"));
    for _ in 0..if thorough { 20 } else { 4 } {
        runs.push(line(shuffle(&mut g, n), "order"));
        let mut v = vec![]; for i in shuffle(&mut g, n) { v.push(i); if g.chance(1, 3) { v.push(i) } if g.chance(1, 3) { v.push(v[g.below(v.len())]) } }
        runs.push(line(v, "order"));
    }
    // one item very often
    for _ in 0..if thorough { 40 } else { 6 } { let (a, b) = (g.below(n), g.below(n)); runs.push(line((0..2200).map(|k| if k % 97 == 0 { b } else { a }).collect(), "repeat")); }
    // tens of thousands of calls in one process, small messages, then others
    let small = types.iter().min_by_key(|t| std::fs::metadata(format!("{}/o.{}.1", w.dir, d.roots[**t - 1].m)).unwrap().len()).unwrap();
    let sm = &d.roots[small - 1].m;
    let many: u64 = if thorough { 140_000 } else { 66_000 };
    for (op, f, div) in MARATHON {
        let rule = ROPS.contains(&op);
        let a = w.by[&(op.to_string(), if rule { "0".to_string() } else { sm.clone() }, f.to_string())];
        let steps = (0..40).flat_map(|_| [(1, a), (1, g.below(n))]).collect();
        runs.push(Run { threads: 1, free: false, steps, kind: "marathon", times: many / div / 40 + 1 });
    }
    // threads running freely: everything in every thread; the same items first in all threads at once
    for _ in 0..if thorough { 12 } else { 2 } {
        let mut steps = vec![]; for t in 1..=8 { for i in shuffle(&mut g, n) { steps.push((t, i)) } }
        runs.push(Run { threads: 8, free: true, steps, kind: "threads", times: 1 });
    }
    for _ in 0..if thorough { 1500 } else { 200 } {
        let a: Vec<usize> = (0..3).map(|_| g.below(n)).collect();
        let mut steps = vec![]; for t in 1..=8 { for k in 0..6 { steps.push((t, a[(t * (k + 1) + k) % 3])) } }
        runs.push(Run { threads: 8, free: true, steps, kind: "burst", times: 1 });
    }
    let outs = all(&w, &runs, "b");
    // answers numbered over the whole check
    let mut no: HashMap<String, usize> = HashMap::new();
    let mut num = |s: &str| { let k = no.len() + 1; *no.entry(s.to_string()).or_insert(k) };
    let r: Vec<usize> = refs.iter().map(|s| num(s)).collect();
    let mut files: Vec<String> = vec![format!("{{\"a\":\"Alone\",\"out\":[{}]}}\n", r.iter().map(usize::to_string).collect::<Vec<_>>().join(",")); 8];
    let mut cost = [0usize; 8];
    let mut kinds: HashMap<&str, (usize, usize)> = HashMap::new();
    for (run, o) in runs.iter().zip(&outs) {
        let st: Vec<String> = run.steps.iter().zip(o).map(|((t, i), h)| format!("[{t},{},{}]", i + 1, num(h))).collect();
        // names of the items of short runs, and of those that answered differently (for the reader of a replay)
        let nm: Vec<String> = run.steps.iter().zip(o).filter(|((_, i), h)| run.steps.len() < 10 || refs[*i] != **h).take(12).map(|((t, i), _)| { let x = &w.items[*i]; format!("\"thread {t}: {} {} {}\"", x.op, x.m, x.f) }).collect();
        let k = (0..8).min_by_key(|k| cost[*k]).unwrap();
        cost[k] += st.len() + 4;
        files[k].push_str(&format!("{{\"a\":\"Run\",\"kind\":\"{}\",\"free\":{},\"steps\":[{}],\"names\":[{}]}}\n", run.kind, run.free, st.join(","), nm.join(",")));
        let e = kinds.entry(run.kind).or_default(); e.0 += 1; e.1 += st.len();
    }
    for (k, f) in files.iter().enumerate() { std::fs::write(format!("{dir}/t.{k}.ndjson"), f).unwrap() }
    let mut dist = r.clone(); dist.sort(); dist.dedup();
    let ks: Vec<String> = kinds.iter().map(|(k, v)| format!("\"{k}\":[{},{}]", v.0, v.1)).collect();
    println!("{{\"items\":{n},\"distinct_answers\":{},\"schedules_from_spec\":{},\"runs\":{{{}}}}}", dist.len(), sched.len(), ks.join(","));
}
