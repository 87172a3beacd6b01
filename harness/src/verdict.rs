//! C12: the validation step, the parsing step and the envelope check on one input.  C17: bare and enveloped documents.
use crate::dict::*; use crate::faults::*; use crate::frame::*; use crate::gen_::*; use crate::ops::*; use crate::out::*; use crate::pipe; use crate::total::{mutate, par}; use crate::tree::*; use crate::wire::*; use crate::wirechecks::*;
use mx_message::MxMessage;
use mx_message::plugin::common;
use mx_message::xml as mxxml;
use serde_json::{Value, json};
pub const PLACES: [&str; 3] = ["payload", "string", "wrapper"];
/// a pipeline message holding content v; returns the source's name
pub fn place(how: &str, v: Value) -> (dataflow_rs::engine::message::Message, &'static str) {
    match how {
        "payload" => (pipe::msg(v), "payload"),
        _ => {
            let mut m = pipe::msg(json!("unrelated"));
            m.context["data"] = if how == "string" { json!({"src": v, "payload": "decoy"}) } else { json!({"src": {"mx_message": v, "other": 1}}) };
            (m, "src")
        }
    }
}
fn outcome<T, E>(r: Result<Result<T, E>, String>) -> &'static str { match r { Ok(Ok(_)) => "ok", Ok(Err(_)) => "error", Err(_) => "panic" } }
/// <<what, verdict, errors, parsing, check>>; ty "": do not ask the envelope check
fn verdict(what: &str, how: &str, v: Value, ty: &str) -> String {
    let text = v.as_str().map(String::from);
    let (m0, src) = place(how, v);
    let mut m = m0.clone();
    let (mut vd, mut n) = (outcome(pipe::step(&mut m, "validate", src, "out")), 0);
    if vd == "ok" {
        let o = &m.data()["out"];
        vd = match o["valid"].as_bool() { Some(true) => "valid", Some(false) => "invalid", None => "odd" };
        n = o["errors"].as_array().map_or(999, Vec::len);
        if !o["errors"].as_array().is_some_and(|a| a.iter().all(|e| e.as_str().is_some_and(|e| !e.is_empty()))) && n > 0 { n = 998; vd = "odd" }
    }
    let mut m = m0;
    let p = outcome(pipe::step(&mut m, "parse", src, "out"));
    let c = match text { Some(s) if !ty.is_empty() => outcome(guard(|| mxxml::from_mx_xml_envelope_str(&s, ty))), _ => "-" };
    format!("[{what},\"{vd}\",{n},\"{p}\",\"{c}\"]")
}
fn group(l: &[String]) -> String { format!("{{\"a\":\"Verdicts\",\"list\":[{}]}}", l.join(",")) }
/// every structure of every registered type (and of the header) with every kind of fault at every field: f(type, base, changed, what)
fn each_fault(d: &Dict, seed: u64, salt: &str, r: &RootD, thorough: bool, mut f: impl FnMut(&Mx, &Mx, String, bool)) {
    let ht = d.root(HDR).r;
    let mut g = Gen::new(d, seed, &format!("{salt}{}", r.m), Leaf::Clean);
    let rt = d.root_ix(&r.m);
    for part in ["d", "h"] {
        let top = if part == "d" { r.r } else { ht };
        for (t, route) in routes(d, top) {
            locals_reset();
            (g.leaf, g.popt, g.pvec, g.budget, g.trim) = (Leaf::Clean, 0, 0, i64::MAX, true);
            if g.rng.chance(1, 4) { g.popt = 12; g.pvec = 30; g.budget = 40; }
            if g.rng.chance(1, 3) { g.leaf = Leaf::Hostile }
            STYLE.set(g.rng.below(6));
            let m = if part == "d" { let h = header(&mut g, &r.full); Mx { rt, h, d: base(&mut g, r.r, &route), ns: [None, None] } }
                    else { let h = base(&mut g, ht, &route); Mx { rt, h, d: g.build(r.r), ns: [None, None] } };
            f(&m, &m, "0".into(), true);
            let p: Path = route.iter().map(|i| (*i, 0)).collect();
            for (i, fd) in d.ty(t).iter().enumerate() {
                let ops = faults_of(d, fd);
                // every fault in a thorough run; otherwise absence, repetition and two values
                let mut pick: Vec<usize> = (0..ops.len()).collect();
                if !thorough && ops.len() > 4 { pick = vec![0, 1, 2 + g.rng.below(ops.len() - 2), 2 + g.rng.below(ops.len() - 2)] }
                for k in pick {
                    let op = &ops[k];
                    if matches!(op, Op::Dup) && fd.x == "$value" { continue }
                    let n = if part == "d" { Mx { d: apply(&m.d, &p, i, op), ..m.clone() } } else { Mx { h: apply(&m.h, &p, i, op), ..m.clone() } };
                    f(&m, &n, format!("[\"{part}\",{}]", opjs(&p, i, op)), part == "d");
                }
            }
        }
    }
}
/// the input made n bytes or longer without touching its structure: white space, a comment, a long text, repetitions of a component
fn inflate(s: &str, n: usize, how: usize) -> String {
    let end = |s: &str| s.find("</").unwrap_or(s.len());
    let doc = s.find("<Document>").map_or(0, |i| i + 10);
    match how {
        0 => { let a = s.find("<Document>").unwrap_or(0); format!("{}{}{}", &s[..a], " \n".repeat(n / 2), &s[a..]) }
        1 => format!("{s}{}", "\n".repeat(n)),
        2 => format!("{}{}{}", &s[..end(s)], "long é ".repeat(n / 8), &s[end(s)..]),
        3 => { let a = s[doc..].find('>').map_or(0, |i| doc + i + 1); format!("{}{}{}", &s[..a], "<Unknwn>1</Unknwn>".repeat(n / 18), &s[a..]) }
        4 => { let a = s.find("<AppHdr").and_then(|i| s[i..].find('>').map(|j| i + j + 1)).unwrap_or(0); if a == 0 { return inflate(s, n, 3) } format!("{}{}{}", &s[..a], "<Unknwn>1</Unknwn>".repeat(n / 18), &s[a..]) }
        _ => { let e = s[doc..].find("</").map_or(s.len(), |i| doc + i); format!("{}{}{}", &s[..e], "x".repeat(n), &s[e..]) }
    }
}
pub fn bare_text(d: &Dict, m: &Mx) -> String { format!("<Document>{}</Document>", m.doc_xml(d)) }
pub fn c12(d: &Dict, seed: u64, thorough: bool, dir: &str, work: &str) {
    let mut out = Chunks::new(dir, "t", 8);
    let regs: Vec<&RootD> = d.roots.iter().filter(|r| !r.mt.is_empty()).collect();
    let n = std::sync::atomic::AtomicUsize::new(0);
    // framings
    let mut p = Pool::new(d, seed, "c12");
    let mut l = vec![];
    let mut k = 0;
    for name in ["framings", "bare", "deep"] {
        for f in lines(work, name) {
            locals_reset();
            let m = p.next(k % 2 == 0);
            let s = render(d, &f, &m);
            let r = m.root(d);
            l.push(verdict(&jstr(&s), PLACES[k % 3], Value::String(s.clone()), if k % 2 == 0 { &r.mt } else { &r.full }));
            k += 1;
        }
    }
    n.fetch_add(l.len(), std::sync::atomic::Ordering::Relaxed);
    for c in l.chunks(50) { out.put(&group(c), c.len()) }
    // faults
    let lines_ = par(8, |k| {
        let mut o = vec![];
        for r in regs.iter().skip(k).step_by(8) {
            let mut l = vec![]; let mut q = 0usize;
            each_fault(d, seed, "c12", r, thorough, |_, m, what, doc| {
                q += 1;
                let s = if doc && q % 2 == 0 { bare_text(d, m) } else { m.xml(d) };
                l.push(verdict(&format!("[{},{what}]", jstr(&r.mt)), PLACES[q % 3], Value::String(s), &r.mt));
            });
            n.fetch_add(l.len(), std::sync::atomic::Ordering::Relaxed);
            o.extend(l.chunks(200).map(group));
        }
        o
    });
    for x in &lines_ { out.put(x, 200) }
    // the same, large
    let sizes = [5_000, 70_000, 300_000, 1_100_000];
    let lines_ = par(8, |k| {
        let mut o = vec![];
        for r in regs.iter().skip(k).step_by(8) {
            let mut l = vec![]; let mut q = 0usize; let mut seen = 0;
            let mut g = Rng::new(seed, &format!("c12big{}", r.m));
            let mut v = vec![];
            each_fault(d, seed, "c12b", r, false, |_, m, what, doc| { if what == "0" || g.chance(1, 6) { v.push((if doc && g.chance(1, 2) { bare_text(d, m) } else { m.xml(d) }, what)) } });
            let want = if thorough { 120 } else { 24 };
            let step = (v.len() / want).max(1);
            for (s, what) in v.iter().step_by(step) {
                let n = sizes[if seen % 12 == 11 { 3 } else { seen % 3 }]; seen += 1;
                for how in [seen % 6, (seen + 3) % 6] {
                    q += 1;
                    let s = inflate(s, n, how);
                    l.push(verdict(&format!("[{},{what},{n},{how}]", jstr(&r.mt)), PLACES[q % 3], Value::String(s), &r.mt));
                }
            }
            n.fetch_add(l.len(), std::sync::atomic::Ordering::Relaxed);
            o.push(group(&l));
        }
        o
    });
    for x in &lines_ { out.put(x, 200) }
    // malformed input, cut and changed messages, contents that are not text
    let junk: Vec<String> = lines(work, "junk").iter().map(|l| l.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<String>()).collect();
    let mut p = Pool::new(d, seed, "c12m");
    let mut texts = vec![];
    for k in 0..if thorough { 100 } else { 25 } { locals_reset(); let m = p.next(true); texts.push(if k % 2 == 0 { m.xml(d) } else { bare_text(d, &m) }); }
    let ty_of = |s: &str| guard(|| common::extract_message_type_from_xml(s).unwrap_or_default()).unwrap_or_default();
    let any_env = |s: &str| s.contains("<AppHdr") || s.contains("<Envelope");
    let ask = |s: &str| { let t = ty_of(s); if !t.is_empty() { t } else if any_env(s) { "pacs.008".into() } else { String::new() } };
    let lines_ = par(8, |k| {
        let mut o = vec![]; let mut g = Rng::new(seed, &format!("c12{k}"));
        let mut l = vec![];
        for s in junk.iter().skip(k).step_by(8) {
            let t = ask(s);
            l.push(verdict(&jstr(s), PLACES[g.below(3)], Value::String(s.clone()), &t));
        }
        for s in texts.iter().skip(k).step_by(8) {
            for how in 0..6 {
                let cuts: Vec<usize> = s.char_indices().map(|x| x.0).collect();
                let stride = if thorough { 2 } else { 9 };
                for i in cuts.iter().skip(g.below(stride)).step_by(stride) {
                    let m = mutate(s, *i, how, &mut g);
                    let t = ask(&m);
                    l.push(verdict(&jstr(&m), PLACES[g.below(3)], Value::String(m.clone()), &t));
                }
            }
        }
        n.fetch_add(l.len(), std::sync::atomic::Ordering::Relaxed);
        // keep the recorded trace small: one line per group, inputs spelt out only where the judgements differ in kind
        for c in l.chunks(200) { o.push(group(c)) }
        o
    });
    for x in &lines_ { out.put(x, 200) }
    let mut l = vec![];
    for v in [json!(null), json!(1), json!(true), json!([]), json!(["<Document>"]), json!({}), json!({"mx_message": 1}), json!({"mx_message": null}), json!({"mx_message": texts[0]}), json!(texts[0]), json!({"Document": {}}), json!({"mx_message": {"mx_message": texts[0]}}), json!("")] {
        for how in PLACES { l.push(verdict(&jstr(&v.to_string()), how, v.clone(), "")); }
    }
    out.put(&group(&l), l.len());
    println!("{{\"inputs\":{},\"events\":{}}}", n.load(std::sync::atomic::Ordering::Relaxed) + l.len(), out.lines);
}
// ---------------------------------------------------------------- C17
fn err(e: String) -> String { format!("[\"!\",{}]", jstr(&e)) }
fn neutral(d: &Dict, r: Result<Result<Value, String>, String>) -> String {
    match r.unwrap_or_else(Err) { Ok(v) => read_json(d, &v.to_string()), Err(e) => err(e) }
}
fn parse_step(how: &str, s: &str) -> Result<Result<Value, String>, String> {
    let (mut m, src) = place(how, Value::String(s.into()));
    match pipe::step(&mut m, "parse", src, "out")? { Ok(_) => Ok(Ok(m.data()["out"].clone())), Err(e) => Ok(Err(e)) }
}
fn enveloped(s: &str) -> Result<Result<Value, String>, String> {
    guard(|| MxMessage::from_xml(s).and_then(|m| m.to_json()).map_err(|e| e.to_string()).map(|j| { let mut v: Value = serde_json::from_str(&j).unwrap(); json!({"Document": v["Document"].take()}) }))
}
fn via(s: &str, ty: &str) -> Result<Result<Value, String>, String> { guard(|| mxxml::xml_to_json_via_document(s, ty).map_err(|e| e.to_string())) }
pub fn c17(d: &Dict, seed: u64, thorough: bool, dir: &str, work: &str) {
    let mut out = Chunks::new(dir, "t", 8);
    let regs: Vec<&RootD> = d.roots.iter().filter(|r| !r.mt.is_empty()).collect();
    let bares = lines(work, "bare");
    let mut p = Pool::new(d, seed, "c17");
    let mut bases = 0;
    for round in 0..if thorough { 2 } else { 8 } {
        for (k, f) in bares.iter().enumerate() {
            locals_reset();
            let m = p.next(false);
            let r = m.root(d);
            let s = render(d, f, &m);
            // the same Document, in a plain envelope
            let t = f.as_array().unwrap();
            let a = t.iter().position(|t| t[0] == "open").unwrap();
            let b = t.len() - usize::from(t.last().unwrap()[0] == "ws" && t.iter().any(|t| t[0] == "close"));
            let e = format!("<Envelope>{}{}</Envelope>", m.hdr_xml(d), render(d, &Value::Array(t[a..b].to_vec()), &m));
            let (jb, js, je) = (neutral(d, via(&s, &r.mt)), neutral(d, parse_step(PLACES[(k + round) % 3], &s)), neutral(d, enveloped(&e)));
            out.put(&format!("{{\"a\":\"Bare\",\"rt\":{},\"toks\":{f},\"jb\":{jb},\"js\":{js},\"je\":{je},\"x\":{}}}", m.rt, locals_js()), 20 + m.d.leaves());
            bases += 1;
        }
    }
    // larger documents
    let big = par(8, |k| {
        let mut o = vec![];
        for r in regs.iter().skip(k).step_by(8) {
            let mut g = Gen::new(d, seed, &format!("c17{}", r.m), Leaf::Clean); g.begin(r.r);
            let mut gh = Gen::new(d, seed, &format!("c17h{}", r.m), Leaf::Clean); gh.begin(d.root(HDR).r);
            let rounds = if thorough { 60 } else { 6 };
            for k in 0..rounds + BIG {
                locals_reset();
                if k < rounds { tune(&mut g, k) } gh.budget = 10; gh.popt = 5;
                let m = Mx { rt: d.root_ix(&r.m), h: header(&mut gh, &r.full), d: if k < rounds { g.build(r.r) } else { build_big(&mut g, r.r, k - rounds) }, ns: [None, None] };
                let s = bare_text(d, &m);
                let (jb, js, je) = (neutral(d, via(&s, &r.mt)), neutral(d, parse_step(PLACES[k % 3], &s)), neutral(d, enveloped(&m.xml(d))));
                o.push(format!("{{\"a\":\"Bare\",\"rt\":{},\"toks\":[[\"open\",\"Document\",[]],[\"root\",\"\",[]],[\"close\",\"Document\"]],\"jb\":{jb},\"js\":{js},\"je\":{je},\"x\":{}}}", m.rt, locals_js()));
            }
        }
        o
    });
    for x in &big { bases += 1; out.put(x, x.len() / 20) }
    let n = std::sync::atomic::AtomicUsize::new(0);
    let fl = par(8, |k| {
        let mut o = vec![];
        for r in regs.iter().skip(k).step_by(8) {
            let mut l = vec![]; let mut q = 0;
            each_fault(d, seed, "c17", r, thorough, |_, m, what, doc| {
                if !doc { return }
                q += 1;
                let s = bare_text(d, m);
                let (b, st, e) = (via(&s, &r.mt), parse_step(PLACES[q % 3], &s), enveloped(&m.xml(d)));
                let same = match (&b, &st, &e) { (Ok(Ok(b)), Ok(Ok(s)), Ok(Ok(e))) => b == e && s == e, _ => false };
                l.push(format!("[{what},\"{}\",\"{}\",\"{}\",{same}]", outcome(b), outcome(st), outcome(e)));
            });
            n.fetch_add(l.len(), std::sync::atomic::Ordering::Relaxed);
            for c in l.chunks(200) { o.push(format!("{{\"a\":\"BareFaults\",\"mt\":{},\"list\":[{}]}}", jstr(&r.mt), c.join(","))) }
        }
        o
    });
    for x in &fl { out.put(x, 200) }
    // types that are not supported
    let mut names: Vec<String> = regs.iter().flat_map(|r| crate::registry::near(&r.mt)).chain(["", "camt.027", "pain.013", "pacs.028", "head.001", "Unknown", "Document", "pacs", "*"].map(String::from)).collect();
    names.retain(|n| !regs.iter().any(|r| r.mt == *n || r.full == *n));
    names.sort(); names.dedup();
    let mut p = Pool::new(d, seed, "c17u");
    for c in names.chunks(40) {
        let mut l = vec![];
        for n in c {
            locals_reset();
            let m = p.next(false);
            let inner = m.doc_xml(d);
            for s in [bare_text(d, &m), inner.clone(), format!("<Document><Unknown>{inner}</Unknown></Document>"), format!("<Document>{}</Document>", inner.replacen(&m.root(d).el, "FIToFIPmtStsReq", 1)), "<Document><Rcpt></Rcpt></Document>".into(), "<ClmNonRct></ClmNonRct>".into(), "<Document><ClmNonRct></ClmNonRct></Document>".into(), String::new()] {
                l.push(format!("[{},\"{}\"]", jstr(n), outcome(via(&s, n))));
            }
        }
        out.put(&format!("{{\"a\":\"Unsupported\",\"list\":[{}]}}", l.join(",")), l.len());
    }
    println!("{{\"documents\":{bases},\"faults\":{},\"unsupported_names\":{},\"events\":{}}}", n.load(std::sync::atomic::Ordering::Relaxed), names.len(), out.lines);
}
