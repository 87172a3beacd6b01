//! C10: totality.  Every text function and every pipeline step, on malformed inputs and arbitrary states.
use crate::dict::*; use crate::frame::*; use crate::gen_::*; use crate::ops::*; use crate::out::*; use crate::pipe::{self, OPS}; use crate::roots::ROOTS; use crate::tree::*;
use dataflow_rs::engine::FunctionConfig;
use mx_message::mx_envelope::{self as env, Document, MxMessage};
use mx_message::parse_result::{ErrorCollector, ParserConfig};
use mx_message::plugin::common;
use mx_message::validation::{Validate, helpers};
use mx_message::{message_registry as reg, xml as mxxml};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
/// counters per function: values, errors, panics, calls
#[derive(Default)]
struct Tally { m: BTreeMap<&'static str, [usize; 4]>, first: Vec<String> }
impl Tally {
    fn call(&mut self, name: &'static str, input: &str, f: impl FnOnce() -> bool) {
        let r = guard(f);
        let e = self.m.entry(name).or_default();
        e[3] += 1;
        match r { Ok(true) => e[0] += 1, Ok(false) => e[1] += 1, Err(p) => { e[2] += 1; if self.first.len() < 3 { self.first.push(format!("{name}: {p}: {input:?}").chars().take(3000).collect()) } } }
    }
    fn line(&self, n: usize) -> String {
        let f: Vec<String> = self.m.iter().map(|(k, v)| format!("[\"{k}\",{},{},{},{}]", v[0], v[1], v[2], v[3])).collect();
        format!("{{\"a\":\"Batch\",\"n\":{n},\"fns\":[{}],\"first\":{}}}", f.join(","), json!(self.first))
    }
}
fn validate_all(o: &MxMessage, path: &str) {
    for c in [ParserConfig::default(), ParserConfig::fail_fast(), ParserConfig::lenient()] {
        let mut e = ErrorCollector::new(); o.app_hdr.validate(path, &c, &mut e);
    }
}
/// functions that read XML
fn xml_functions(t: &mut Tally, s: &str, ty: &str, root: &Root) {
    t.call("from_xml", s, || match MxMessage::from_xml(s) { Ok(m) => { validate_all(&m, s); let _ = m.to_json(); let _ = m.to_xml(); let _ = m.namespace(); true } Err(e) => { let _ = e.to_string(); false } });
    t.call("peek_xml", s, || env::peek_message_type_from_xml(s).is_ok());
    t.call("extract_type_xml", s, || common::extract_message_type_from_xml(s).is_ok());
    t.call("via_document", s, || mxxml::xml_to_json_via_document(s, ty).is_ok());
    t.call("xml_to_json", s, || mxxml::from_mx_xml_to_json(s).is_ok());
    t.call("envelope_str", s, || mxxml::from_mx_xml_envelope_str(s, ty).is_ok());
    t.call("typed_xml", s, || match (root.from_xml)(s) { Ok(o) => { let mut e = ErrorCollector::new(); o.check(s, &ParserConfig::default(), &mut e); true } Err(_) => false });
    t.call("parse_step", s, || pipe::step(&mut pipe::msg(Value::String(s.into())), "parse", "payload", "t").unwrap_or_else(|p| panic!("{p}")).is_ok());
    t.call("validate_step", s, || pipe::step(&mut pipe::msg(Value::String(s.into())), "validate", "payload", "t").unwrap_or_else(|p| panic!("{p}")).is_ok());
}
fn json_functions(t: &mut Tally, s: &str, root: &Root) {
    t.call("from_json", s, || match MxMessage::from_json(s) { Ok(m) => { validate_all(&m, s); let _ = m.to_xml(); true } Err(_) => false });
    t.call("peek_json", s, || env::peek_message_type_from_json(s).is_ok());
    t.call("document_json", s, || match serde_json::from_str::<Document>(s) { Ok(d) => { d.namespace(); true } Err(_) => false });
    t.call("typed_json", s, || match (root.from_json)(s) { Ok(o) => { let mut e = ErrorCollector::new(); o.check("", &ParserConfig::default(), &mut e); let _ = o.xml(); true } Err(_) => false });
    let v: Value = serde_json::from_str(s).unwrap_or_else(|_| Value::String(s.into()));
    t.call("extract_type", s, || common::extract_message_type(&v).is_ok());
    t.call("extract_content", s, || common::extract_mx_content(&v, s, &v).is_ok() | common::extract_mx_content(&json!({s: v.clone()}), s, &v).is_ok() | common::extract_mx_content(&v, "payload", &v).is_ok());
    for (name, op) in [("publish_step", "publish"), ("parse_step_data", "parse"), ("validate_step_data", "validate")] {
        let mut m = pipe::msg(Value::Null); m.context["data"] = json!({"s": v.clone()});
        t.call(name, s, || pipe::step(&mut m, op, "s", s).unwrap_or_else(|p| panic!("{p}")).is_ok());
    }
    t.call("generate_step", s, || pipe::step(&mut pipe::msg(v.clone()), "generate", "", "t").unwrap_or_else(|p| panic!("{p}")).is_ok());
}
fn name_functions(t: &mut Tally, s: &str) {
    t.call("registry", s, || { reg::get_namespace(s); reg::normalize_message_type(s); env::normalize_message_type(s); env::get_namespace_for_message_type(s);
        reg::element_to_message_type(s).is_some() | reg::message_type_to_element(s).is_some() | reg::message_type_to_rust_type(s).is_some() | reg::get_full_form(s).is_some() });
    t.call("map_element", s, || common::map_document_element_to_message_type(s).is_ok());
    t.call("via_document_type", s, || mxxml::xml_to_json_via_document("<Document><Rcpt></Rcpt></Document>", s).is_ok());
    t.call("envelope_str_type", s, || mxxml::from_mx_xml_envelope_str("<Document><Rcpt></Rcpt></Document>", s).is_ok());
    t.call("helpers", s, || {
        let mut e = ErrorCollector::new(); let c = ParserConfig::default();
        let a = helpers::validate_length(s, s, Some(1), Some(3), s, &c, &mut e); helpers::validate_length(s, s, Some(usize::MAX), Some(0), s, &c, &mut e); helpers::validate_length(s, s, None, None, s, &c, &mut e);
        helpers::validate_pattern(s, s, "[A-Z]{3,3}", s, &c, &mut e); helpers::validate_pattern(s, s, s, s, &c, &mut e); helpers::validate_pattern("ABC", s, s, s, &c, &mut e);
        helpers::validate_required(&Some(s), s, s, &c, &mut e); helpers::validate_required::<u8>(&None, s, s, &c, &mut e); helpers::child_path(s, s); helpers::child_path("", s);
        a
    });
}
const CUT: [&str; 24] = ["<", ">", "/", "</", "\"", "'", "=", "&", ";", " ", "\n", "é", "😀", "\u{0}", "<Document", "</Document>", "<AppHdr>", "</AppHdr>", "<Envelope", "<Rltd>", "{", "}", ",", "\\"];
/// a text, shortened or changed at character boundary i
pub fn mutate(s: &str, i: usize, how: usize, g: &mut Rng) -> String {
    let next = s[i..].chars().next().map_or(i, |c| i + c.len_utf8());
    match how {
        0 => s[..i].to_string(),
        1 => s[i..].to_string(),
        2 => format!("{}{}", &s[..i], &s[next..]),
        3 => format!("{}{}{}", &s[..i], CUT[g.below(CUT.len())], &s[i..]),
        4 => format!("{}{}{}", &s[..i], CUT[g.below(CUT.len())], &s[next..]),
        _ => { let mut j = (i + 1 + g.below(40)).min(s.len()); while !s.is_char_boundary(j) { j += 1 } format!("{}{}{}", &s[..i], &s[i..j], &s[i..]) }
    }
}
fn deep(n: usize) -> Vec<String> {
    let (o, c) = ("<a>".repeat(n), "</a>".repeat(n));
    let mut v = vec![format!("{o}x{c}"), o.clone(), c.clone(), "<".repeat(n), format!("<Document>{o}{c}</Document>"), format!("<AppHdr>{o}{c}</AppHdr><Document><Rcpt>{o}</Rcpt></Document>"),
        format!("<Document><Rcpt><MsgHdr>{o}x{c}</MsgHdr></Rcpt></Document>"), "[".repeat(n), "{\"a\":".repeat(n), format!("{}1{}", "[".repeat(n), "]".repeat(n)), format!("{{\"AppHdr\":{}{}", "{\"Fr\":".repeat(n), "}".repeat(n)),
        format!("<Document>{}", "<Document>".repeat(n)), "<Rltd>".repeat(n), format!("<a{}>", " b=\"c\"".repeat(n)), format!("<{}>", "a".repeat(n)), "&amp;".repeat(n), "<MsgDefIdr>".repeat(n), "<a/>".repeat(n), "<!--".repeat(n), "<![CDATA[".repeat(n), "<?a".repeat(n)];
    v.push(format!("<Document><Rcpt>{}</Rcpt></Document>", "<Envelope>".repeat(n)));
    v.push(format!("({}", "(".repeat(n.min(2000))));
    v
}
/// the message in XML with a part replaced by z
fn stretched_xml(slot: &str, z: &str, h: &str, doc: &str, n: usize) -> String {
    let leaf = |s: &str, tag: &str, v: &str| { let (o, c) = (format!("<{tag}>"), format!("</{tag}>")); match (s.find(&o), s.find(&c)) { (Some(a), Some(b)) => format!("{}{v}{}", &s[..a + o.len()], &s[b..]), _ => s.to_string() } };
    let rename = |s: &str, v: &str| { let a = s.find(['>', ' ']).unwrap(); let b = s.rfind("</").unwrap(); format!("<{v}{}</{v}>", &s[a..b]) };
    let addattr = |s: &str, v: &str| { let a = s.find('>').unwrap(); format!("{} {v}{}", &s[..a], &s[a..]) };
    let inside = |s: &str, v: &str| { let a = s.find('>').unwrap() + 1; format!("{}{v}{}", &s[..a], &s[a..]) };
    let (mut hd, mut root, mut dopen, mut dclose, mut pre, mut mid, mut post, mut wrap) = (h.to_string(), doc.to_string(), "<Document>".to_string(), "</Document>".to_string(), String::new(), String::new(), String::new(), "Envelope".to_string());
    match slot {
        "before" => pre = z.into(), "decl" => pre = format!("<?xml {z}?>"), "declenc" => pre = format!("<?xml version=\"1.0\" encoding=\"{z}\"?>"), "comment" => pre = format!("<!-- {z} -->"), "pi" => pre = format!("<?{z} {z}?>"), "doctype" => pre = format!("<!DOCTYPE {z}>"),
        "wrapper" => wrap = z.into(), "between" => mid = z.into(), "after" => post = z.into(),
        "hdrname" => hd = rename(h, z), "hdrattrname" => hd = addattr(h, &format!("{z}=\"1\"")), "hdrattr" => hd = addattr(h, &format!("xmlns=\"{z}\"")), "hdrtext" => hd = inside(h, z), "hdrns" => hd = rename(h, &format!("{z}:AppHdr")),
        "idr" => hd = leaf(h, "MsgDefIdr", z), "bizid" => hd = leaf(h, "BizMsgIdr", z), "date" => hd = leaf(h, "CreDt", z), "hdrunknown" => hd = inside(h, &format!("<{z}>1</{z}>")),
        "docname" => { dopen = format!("<{z}>"); dclose = format!("</{z}>") } "docns" => { dopen = format!("<{z}:Document>"); dclose = format!("</{z}:Document>") }
        "docattrname" => dopen = format!("<Document {z}=\"1\">"), "docattr" => dopen = format!("<Document xmlns=\"{z}\">"), "doctext" => dopen = format!("<Document>{z}"),
        "root" => root = rename(doc, z), "rootns" => { let a = doc.find(['>', ' ']).unwrap(); root = rename(doc, &format!("{z}:{}", &doc[1..a])) } "rootattr" => root = addattr(doc, &format!("a=\"{z}\"")), "roottext" => root = inside(doc, z),
        "unknown" => root = inside(doc, &format!("<{z}>{z}</{z}>")), "leaf" => { let a = doc.find("</").unwrap(); root = format!("{}{z}{}", &doc[..a], &doc[a..]) }
        "endtag" => { let a = doc.find("</").unwrap() + 2; root = format!("{}{z}{}", &doc[..a], &doc[a..]) } "entity" => { let a = doc.find("</").unwrap(); root = format!("{}&{z};{}", &doc[..a], &doc[a..]) }
        "cdata" => { let a = doc.find("</").unwrap(); root = format!("{}<![CDATA[{z}{}", &doc[..a], &doc[a..]) }
        _ => { root = format!("{doc}<{z}/>"); post = format!("<Document><{z}></{z}></Document>") }
    }
    match n % 4 { 0 => format!("{pre}{dopen}{root}{dclose}{post}"), 1 => format!("{pre}{hd}{mid}{dopen}{root}{dclose}{post}"), _ => format!("{pre}<{wrap}>{hd}{mid}{dopen}{root}{dclose}{post}</{wrap}>") }
}
/// the message in JSON with a part replaced by z
fn stretched_json(slot: &str, z: &str, js: &str) -> String {
    let q = jstr(z);
    let v: Value = serde_json::from_str(js).unwrap();
    let key = |s: &str, k: &str| s.replacen(&format!("\"{k}\":"), &format!("{q}:"), 1);
    let set = |p: &str, x: Value| { let mut v = v.clone(); if let Some(m) = v.pointer_mut(p) { *m = x } v.to_string() };
    match slot {
        "jbefore" => format!("{z}{js}"), "jafter" => format!("{js}{z}"), "jtop" => format!("{{{q}:{q},{}", &js[1..]), "jtopnull" => format!("{{{q}:null,{q}:{js},{}", &js[1..]),
        "jhdrkey" => key(js, "AppHdr"), "jidr" => set("/AppHdr/MsgDefIdr", z.into()), "jidrkey" => key(js, "MsgDefIdr"), "jdockey" => key(js, "Document"),
        "jroot" => { let el = v["Document"].as_object().unwrap().keys().next().unwrap().clone(); key(js, &el) }
        "jleaf" => { let i = js.rfind("\":\"").map_or(0, |i| i + 3); format!("{}{}{}", &js[..i], &q[1..q.len() - 1], &js[i..]) }
        "jnumber" => { let mut v = v.clone(); fn first(v: &mut Value, z: &str) -> bool { match v { Value::Number(_) | Value::Bool(_) => { *v = z.into(); true } Value::Object(o) => o.values_mut().any(|x| first(x, z)), Value::Array(a) => a.iter_mut().any(|x| first(x, z)), _ => false } } if !first(&mut v["Document"], z) { v["Document"] = json!([z]) } v.to_string() }
        "jdoctext" => set("/Document", z.into()), "jhdrtext" => set("/AppHdr", z.into()), _ => format!("{{\"@xmlns\":{q},\"Document\":{{\"@xmlns\":{q},{}}}", &v["Document"].to_string()[1..]),
    }
}
fn sample_texts(d: &Dict, seed: u64) -> Vec<(String, String, &'static Root, bool)> {
    let mut p = Pool::new(d, seed, "c10");
    let mut v = vec![];
    for k in 0..25 {
        locals_reset();
        let m = p.next(false); STYLE.set(k % 6);
        let r = m.root(d); let root = root(&r.m);
        v.push((m.xml(d), r.mt.clone(), root, false));
        v.push((format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?><Document xmlns=\"urn:x\">{}</Document>", m.doc_xml(d)), r.mt.clone(), root, false));
        v.push((m.json(d), r.mt.clone(), root, true));
    }
    v
}
pub fn c10(d: &Dict, seed: u64, thorough: bool, dir: &str, work: &str) {
    let mut out = Chunks::new(dir, "t", 8);
    let regs: Vec<String> = registered_types(d);
    // inputs from the specification's alphabet
    let junk: Vec<String> = lines(work, "junk").iter().map(|l| l.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<String>()).collect();
    let (nj, ni) = (junk.len(), AtomicUsize::new(0));
    let batches = par(8, |k| {
        let mut o = vec![]; let mut g = Rng::new(seed, &format!("junk{k}"));
        for c in junk.chunks(500).skip(k).step_by(8) {
            let mut t = Tally::default();
            for s in c {
                let ty = &regs[g.below(regs.len())]; let root = &ROOTS[g.below(ROOTS.len())];
                xml_functions(&mut t, s, ty, root);
                // and surrounded by what makes the scanners look at it
                if g.chance(1, 2) { xml_functions(&mut t, &match g.below(5) { 0 => format!("<AppHdr>{s}</AppHdr><Document>{s}</Document>"), 1 => format!("<Document>{s}</Document>"), 2 => format!("<Document{s}"), 3 => format!("<AppHdr{s}<Document{s}"), _ => format!("<Envelope><AppHdr>{s}<Document><Rcpt>{s}") }, ty, root); }
                if g.chance(1, 4) { json_functions(&mut t, s, root); name_functions(&mut t, s); }
            }
            ni.fetch_add(c.len(), Ordering::Relaxed);
            o.push(t.line(c.len()));
        }
        o
    });
    for b in &batches { out.put(b, 1) }
    // valid messages, cut or changed at every place
    let texts = sample_texts(d, seed);
    let nm = AtomicUsize::new(0);
    let stride = if thorough { 1 } else { 5 };
    let batches = par(8, |k| {
        let mut o = vec![]; let mut g = Rng::new(seed, &format!("mut{k}"));
        for (s, ty, root, js) in texts.iter().skip(k).step_by(8) {
            let mut t = Tally::default(); let mut n = 0;
            for how in 0..6 {
                let cuts: Vec<usize> = s.char_indices().map(|x| x.0).collect();
                for i in cuts.iter().skip(g.below(stride)).step_by(if *js { stride * 3 } else { stride }) {
                    let m = mutate(s, *i, how, &mut g); n += 1;
                    if *js { json_functions(&mut t, &m, root) } else { xml_functions(&mut t, &m, ty, root) }
                }
            }
            nm.fetch_add(n, Ordering::Relaxed);
            o.push(t.line(n));
        }
        o
    });
    for b in &batches { out.put(b, 1) }
    // one part of a valid message, stretched
    let stretch = lines(work, "stretch");
    let bodies: Vec<(String, String, String, &'static Root)> = { let mut p = Pool::new(d, seed, "c10s"); (0..50).map(|_| { locals_reset(); let m = p.next(true); let r = m.root(d); (m.hdr_xml(d), m.doc_xml(d), m.json(d), root(&r.m)) }).collect() };
    let tys: Vec<String> = registered_types(d);
    let batches = par(8, |k| {
        let mut o = vec![];
        for (c, ks) in stretch.chunks(200).enumerate().skip(k).step_by(8) {
            let mut t = Tally::default();
            for (i, x) in ks.iter().enumerate() {
                let n = (((c * 200 + i) as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 40) as usize;
                let (h, doc, js, root) = &bodies[n % bodies.len()];
                let ch = match x["ch"].as_str().unwrap() { "e2" => "é", "j3" => "日", "s4" => "😀", c => c };
                let z = format!("{}{}", &"x-7z"[..x["pre"].as_u64().unwrap() as usize], ch.repeat(x["len"].as_u64().unwrap() as usize));
                match x["slot"].as_str().unwrap() {
                    "type" | "field" => { name_functions(&mut t, &z);
                        for op in OPS { t.call("names_step", &z, || pipe::step(&mut pipe::msg(Value::String(format!("<Document>{doc}</Document>"))), op, if n % 2 == 0 { "payload" } else { &z }, &z).unwrap_or_else(|p| panic!("{p}")).is_ok()); } }
                    sl if sl.starts_with('j') => json_functions(&mut t, &stretched_json(sl, &z, js), root),
                    sl => xml_functions(&mut t, &stretched_xml(sl, &z, h, doc, n), &tys[n % tys.len()], root),
                }
            }
            o.push(t.line(ks.len()));
        }
        o
    });
    for b in &batches { out.put(b, 1) }
    // every state and configuration a step may meet
    let states = lines(work, "states");
    let (xml0, bare0) = (&texts[0].0, &texts[1].0);
    for s in &states {
        let g = |k: &str| s[k].as_str().unwrap();
        let shape = |k: &str, o: Value| match k { "object" => o, "null" => Value::Null, "array" => json!([1, {"s": 1}]), "string" => json!("text"), "number" => json!(7), _ => json!(true) };
        let payload = match g("payload") { "xml" => json!(xml0), "bare" => json!(bare0), "junk" => json!("<Document><"), "empty" => json!(""), "object" => json!({"a": 1}), "array" => json!([1]), "number" => json!(3.5), "null" => Value::Null,
            "digit" => json!(7), "negative" => json!(-1), "float" => json!(0.5), "true" => json!(true), "emptyarray" => json!([]), "emptyobject" => json!({}), "emptytext" => json!(""), "char" => json!("x"), "quote" => json!("\""), "quotes" => json!("\"\""),
            "multibyte" => json!("é"), "backslash" => json!("\\"), "space" => json!(" "), "lt" => json!("<"), "nul" => json!("\u{0}"), "mxnumber" => json!({"mx_message": 7}), "mxnull" => json!({"mx_message": null}), "mxempty" => json!({"mx_message": ""}),
            "mxnested" => json!({"mx_message": {"mx_message": "<a>"}}), "mxarray" => json!([{"mx_message": xml0}]), "bignum" => json!(1e300), "deeparray" => (0..100).fold(json!(1), |v, _| json!([v])),
            "scenario" => json!({"schema": {"a": {"fake": ["uuid"]}}}), "badscenario" => json!({"schema": {"a": {"fake": ["no such", 1, {}]}}, "variables": 3}), _ => json!("{\"schema\": {}}") };
        let mut m = pipe::msg(payload.clone());
        let data = shape(g("data"), json!({"s": xml0, "o": {"mx_message": bare0}, "j": {"AppHdr": {}}, "t": 1, "p": payload, "w": {"mx_message": payload}, "": payload}));
        if g("data") == "missing" { m.context.as_object_mut().unwrap().remove("data"); } else { m.context["data"] = data }
        if g("meta") == "missing" { m.context.as_object_mut().unwrap().remove("metadata"); } else { m.context["metadata"] = shape(g("meta"), json!({"k": 1})) }
        if g("ctx") != "object" { m.context = shape(g("ctx"), Value::Null) }
        let op = g("op");
        let fc = |v: Value| serde_json::from_value::<FunctionConfig>(v).unwrap_or_else(|_| pipe::custom(op, Value::Null));
        for src in ["payload", "s", "o", "j", "none", "p", "w"] {
            let cfg = match g("cfg") {
                "ok" => pipe::custom(op, pipe::st(src, "t")), "null" => pipe::custom(op, Value::Null), "array" => pipe::custom(op, json!(["source", "target"])), "string" => pipe::custom(op, json!("source")),
                "nosrc" => pipe::custom(op, json!({"target": "t"})), "notgt" => pipe::custom(op, json!({"source": src})), "srcnum" => pipe::custom(op, json!({"source": 1, "target": "t"})), "tgtnum" => pipe::custom(op, json!({"source": src, "target": [1]})),
                "map" => fc(json!({"name": "map", "input": {"mappings": []}})), "validation" => fc(json!({"name": "validation", "input": {"rules": []}})), "missing" => pipe::custom(op, json!({})),
                "self" => pipe::custom(op, pipe::st(src, src)), _ => pipe::custom(op, pipe::st("", "")),
            };
            let mut m = m.clone();
            let r = pipe::step_cfg(&mut m, op, &cfg);
            let o = match r { Ok(Ok(_)) => "value", Ok(Err(_)) => "error", Err(_) => "panic" };
            // one line per distinct outcome keeps the trace small
            if src == "payload" || o == "panic" { out.put(&format!("{{\"a\":\"Call\",\"state\":{s},\"src\":{},\"out\":\"{o}\"}}", jstr(src)), 1); }
        }
    }
    // very long and very deep inputs, on a thread with the usual stack
    let n = if thorough { 300_000 } else { 60_000 };
    let r0 = &ROOTS[0];
    let lines: Vec<String> = std::thread::scope(|s| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || {
        let mut o = vec![];
        for m in [1, 2, 127, 128, 129, 3000, n] {
            let mut t = Tally::default(); let v = deep(m);
            for s in &v { xml_functions(&mut t, s, "camt.025", r0); json_functions(&mut t, s, r0); if s.len() < 5000 { name_functions(&mut t, s) } }
            o.push(t.line(v.len()));
        }
        o
    }).unwrap().join().unwrap());
    for l in &lines { out.put(l, 1) }
    println!("{{\"junk_from_spec\":{nj},\"stretched_from_spec\":{},\"mutants\":{},\"states_from_spec\":{},\"events\":{}}}", stretch.len(), nm.load(Ordering::Relaxed), states.len(), out.lines);
    let _ = OPS;
}
fn registered_types(d: &Dict) -> Vec<String> { d.roots.iter().filter(|r| !r.mt.is_empty()).map(|r| r.mt.clone()).collect() }
/// runs f on n threads with large stacks
pub fn par(n: usize, f: impl Fn(usize) -> Vec<String> + Sync) -> Vec<String> {
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|k| { let f = &f; std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || f(k)).unwrap() }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    })
}
