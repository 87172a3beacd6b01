//! C08: type tables.
use crate::dict::*; use crate::gen_::*; use crate::ops::*; use crate::out::*; use crate::tree::*; use crate::wire::*; use crate::wirechecks::*;
use mx_message::message_registry as reg;
use mx_message::mx_envelope::{self as env, Document, MxMessage};
use mx_message::plugin::common;
use serde_json::{Value, json};
macro_rules! variants { ($d:expr, $($v:ident),*) => { match $d { $(Document::$v(x) => (stringify!($v), std::any::type_name_of_val(&**x))),* } } }
/// message type of a document by its Rust variant; "mixed" if variant and content disagree
pub fn variant(d: &Document) -> String {
    let (v, t) = variants!(d, Pacs008, Pacs002, Pacs003, Pacs004, Pacs009, Pacs010, Pain001, Pain002, Pain008, Camt025, Camt029, Camt052, Camt053, Camt054, Camt055, Camt056, Camt057, Camt058, Camt060, Camt105, Camt106, Camt107, Camt108, Camt109, Admi024);
    let module = t.split("::").nth(2).unwrap_or("");
    let short = format!("{}.{}", v[..4].to_lowercase(), &v[4..]);
    if module.starts_with(&short.replace('.', "_")) { short } else { "mixed".into() }
}
fn s(r: Result<String, String>) -> String { jstr(&r.unwrap_or_else(|e| format!("panic {e}"))) }
fn o(r: Result<Option<&'static str>, String>) -> String { s(r.map(|o| o.unwrap_or("?").to_string())) }
fn q<E>(r: Result<Result<String, E>, String>) -> String { s(r.map(|r| r.unwrap_or_else(|_| "?".into()))) }
pub fn near(n: &str) -> Vec<String> {
    let mut v = vec![n.to_uppercase(), n.to_lowercase(), format!("{n}x"), format!("x{n}"), format!(" {n}"), format!("{n} "), format!("{n}\n"), format!("{n}."), n[..n.len() - 1].to_string(), n[1..].to_string(), n.replace('.', ""), n.replace('.', "_"), format!("{n}.001"), n.chars().rev().collect()];
    if let Some(i) = n.rfind(['0', '1', '2', '8', '9', '5', '6', '3']) { let mut m = n.to_string(); m.replace_range(i..=i, "7"); v.push(m); }
    v
}
/// everything one slip away from a name, and what names are often extended by
fn slips(n: &str, r: &mut Rng) -> Vec<String> {
    let c: Vec<char> = n.chars().collect();
    let mut v = near(n);
    let put = |f: &dyn Fn(usize) -> Vec<String>| -> Vec<String> { (0..c.len()).flat_map(f).collect() };
    let sub = |i: usize, x: &str| -> String { c[..i].iter().collect::<String>() + x + &c[i + 1..].iter().collect::<String>() };
    v.extend(put(&|i| {
        let x = c[i].to_string();
        let mut l = vec![sub(i, ""), sub(i, &format!("{x}{x}")), sub(i, &if x == x.to_uppercase() { x.to_lowercase() } else { x.to_uppercase() })];
        if i > 0 { l.push(c[..i].iter().collect()) }
        if i > 0 { l.push(c[i..].iter().collect()) }
        l
    }));
    v.extend(put(&|i| vec![sub(i, &char::from_u32(c[i] as u32 + 1).unwrap().to_string()), sub(i, "0"), sub(i, "*"), sub(i, "_"), sub(i, "-")]));
    for x in ["0", "1", "8", "08", "12", "2019", "V1", "V08", "V10", "_V08", "Choice1", "01", ".01", ".1", ".001.01", ".001.08", ".adv", ".cov", ".stp", "_stp", "STP", "Type", "Document", "/", ":", "\0", "\u{e9}", "#1", "[0]", "?"] { v.push(format!("{n}{x}")) }
    for x in ["0", "_", ":", "a:", "doc:", "urn:", "urn:iso:std:iso:20022:tech:xsd:", "iso.", "swift.", "Document.", "mx_message::", "\u{feff}", "/", "@", "-"] { v.push(format!("{x}{n}")) }
    for _ in 0..6 { let i = r.below(c.len()); let x = ["a", "Z", "7", ".", " ", "\u{df}"][r.below(6)]; v.push(c[..i].iter().collect::<String>() + x + &c[i..].iter().collect::<String>()) }
    v
}
pub fn c08(d: &Dict, seed: u64, thorough: bool, dir: &str) {
    let mut out = Chunks::new(dir, "t", 8);
    let regs: Vec<&RootD> = d.roots.iter().filter(|r| !r.mt.is_empty()).collect();
    let rows: Vec<String> = reg::MESSAGE_REGISTRY.iter().map(|i| format!("[{},{},{},{}]", jstr(i.short_form), jstr(i.full_form), jstr(i.xml_element_name), jstr(i.rust_type_name))).collect();
    out.put(&format!("{{\"a\":\"Table\",\"rows\":[{}]}}", rows.join(",")), 100);
    // every name in every lookup, and what only looks like a name
    let mut names: Vec<String> = vec![];
    let mut rs = Rng::new(seed, "c08n");
    for r in &regs { for n in [&r.mt, &r.full, &r.el, &r.t] { names.push(n.clone()); names.extend(slips(n, &mut rs)); } }
    // every number and version of the families
    for f in ["pacs", "pain", "camt", "admi"] { for i in 0..130 { names.push(format!("{f}.{i:03}")); names.push(format!("{f}.{i:03}.001.08")); } }
    for r in &regs { for v in 1..4 { for i in 0..15 { names.push(format!("{}.{v:03}.{i:02}", r.mt)); } } }
    for n in ["", "FinInstnCdtTrf", "Rct", "ClmNonRct", "ClaimNonReceiptV07", "camt.027", "camt.027.001.07", "unknown", "Document", "AppHdr", "pacs", "pacs.00", "pacs.008.001", "pacs.008.001.09", "camt.05", "*", ".", "é", "Unknown", "FinInstnCdtTrfX", "rct", "admi", "pain.013", "head.001.001.02"] { names.push(n.into()); }
    for r in &d.roots { names.push(r.m.clone()); names.push(r.x.clone()); }
    names.sort(); names.dedup();
    let mut g = Gen::new(d, seed, "c08", Leaf::Clean); g.popt = 0;
    let base = { let r = d.root("camt_025_001_08"); g.begin(r.r); Mx { rt: d.root_ix(&r.m), h: header(&mut g, &r.full), d: g.build(r.r), ns: [None, None] } };
    for chunk in names.chunks(40) {
        let mut l = vec![];
        for n in chunk {
            let mut put = |f: &str, r: String| l.push(format!("[\"{f}\",{},{r}]", jstr(n)));
            put("get_namespace", s(guard(|| reg::get_namespace(n))));
            put("get_namespace_for_message_type", s(guard(|| env::get_namespace_for_message_type(n))));
            put("normalize", s(guard(|| reg::normalize_message_type(n))));
            put("mx_normalize", s(guard(|| env::normalize_message_type(n))));
            put("element_to_type", o(guard(|| reg::element_to_message_type(n))));
            put("type_to_element", o(guard(|| reg::message_type_to_element(n))));
            put("type_to_rust", o(guard(|| reg::message_type_to_rust_type(n))));
            put("full_form", o(guard(|| reg::get_full_form(n))));
            put("detect", q(guard(|| common::map_document_element_to_message_type(n))));
            put("detect_json", q(guard(|| common::extract_message_type(&json!({"Document": {n.as_str(): {"x": 1}}, "AppHdr": {}})))));
            if !n.is_empty() && n.chars().all(|c| c.is_alphanumeric() || c == '.' || c == '_') {
                put("detect_xml", q(guard(|| common::extract_message_type_from_xml(&format!("<Document xmlns=\"urn:x\"><{n}><A/></{n}></Document>")))));
            }
            let mut m = base.clone();
            set_text(d, d.root(HDR).r, &mut m.h, "MsgDefIdr", n);
            let js = m.json(d);
            put("mx_namespace", q(guard(|| MxMessage::from_json(&js).and_then(|m| m.namespace()))));
            put("mx_type", q(guard(|| MxMessage::from_json(&js).and_then(|m| m.message_type().map(String::from)))));
            locals_reset();
        }
        out.put(&format!("{{\"a\":\"Lookup\",\"list\":[{}]}}", l.join(",")), 40);
    }
    // dispatch
    for r in &regs {
        let mut g = Gen::new(d, seed, &format!("c08{}", r.m), Leaf::Clean); g.begin(r.r);
        let mut gh = Gen::new(d, seed, &format!("c08h{}", r.m), Leaf::Clean); gh.begin(d.root(HDR).r);
        for k in 0..if thorough { 12 } else { 3 } {
            locals_reset();
            tune(&mut g, [1, 3, 0, 4, 6][k % 5]); g.leaf = Leaf::Clean; g.bigvec = 0; gh.popt = 10;
            let m = Mx { rt: d.root_ix(&r.m), h: header(&mut gh, if k % 2 == 0 { &r.full } else { &r.mt }), d: g.build(r.r), ns: [None, None] };
            let js = m.json(d); let xs = m.xml(d);
            let el = |v: &Value| v.get("Document").and_then(Value::as_object).filter(|o| o.len() == 1).and_then(|o| o.keys().next().cloned()).unwrap_or_else(|| "?".into());
            let obj = guard(|| MxMessage::from_json(&js));
            let f = |f: &dyn Fn(&MxMessage) -> String| -> String { match &obj { Ok(Ok(o)) => s(guard(|| f(o))), Ok(Err(e)) => jstr(&e.to_string()), Err(e) => jstr(e) } };
            let doc_ns = f(&|o| o.document.namespace());
            let mx_ns = f(&|o| o.namespace().unwrap_or_default());
            let json_el = f(&|o| el(&serde_json::from_str::<Value>(&o.to_json().unwrap()).unwrap()));
            let xml_el = f(&|o| { let t: Value = serde_json::from_str(&xml_tokens(d, &o.to_xml().unwrap()).unwrap()).unwrap();
                let opens: Vec<&str> = t.as_array().unwrap().iter().filter(|t| t[0] == "<").map(|t| t[1].as_str().unwrap()).collect();
                opens.iter().skip_while(|n| **n != "Document").nth(1).unwrap_or(&"?").to_string() });
            let vj = f(&|o| variant(&o.document));
            let vx = s(guard(|| MxMessage::from_xml(&xs).map_or("?".into(), |m| variant(&m.document))));
            let px = q(guard(|| env::peek_message_type_from_xml(&xs)));
            let pj = q(guard(|| env::peek_message_type_from_json(&js)));
            let pipej = q(guard(|| common::extract_message_type(&serde_json::from_str(&js).unwrap())));
            let pipex = q(guard(|| common::extract_message_type_from_xml(&xs)));
            let mut mm = crate::pipe::msg(Value::String(xs.clone()));
            let meta = match crate::pipe::step(&mut mm, "parse", "payload", "t") { Ok(Ok(_)) => mm.metadata()["t"]["message_type"].as_str().unwrap_or("?").to_string(), Ok(Err(e)) | Err(e) => e };
            let dx = format!("<Document>{}</Document>", m.doc_xml(d));
            let via = |t: &str| guard(|| mx_message::xml::xml_to_json_via_document(&dx, t).map(|v| el(&v)));
            let dol = q(via(&r.mt));
            let offered: Vec<String> = regs.iter().map(|x| x.mt.clone()).chain(near(&r.mt)).map(|t| format!("[{},{}]", jstr(&t), match via(&t) { Ok(Ok(e)) => jstr(&e), Ok(Err(_)) => "\"refused\"".into(), Err(e) => jstr(&e) })).collect();
            let inner = m.doc_xml(d); let inner = &inner[r.el.len() + 2..inner.len() - r.el.len() - 3];
            let hx = m.hdr_xml(d);
            let jd: Value = serde_json::from_str(&js).unwrap();
            let mut rel = vec![];
            for x in regs.iter().map(|x| x.el.clone()).chain(near(&r.el)).chain(["Unknown".into()]) {
                if x.chars().all(|c| c.is_alphanumeric()) {
                    let v = guard(|| MxMessage::from_xml(&format!("<Envelope>{hx}<Document><{x}>{inner}</{x}></Document></Envelope>")).map(|m| variant(&m.document)));
                    rel.push(format!("[{},{}]", jstr(&x), match v { Ok(Ok(v)) => jstr(&v), Ok(Err(_)) => "\"refused\"".into(), Err(e) => jstr(&e) }));
                }
                let mut j = jd.clone();
                let c = j["Document"][&r.el].clone(); j["Document"] = json!({x.as_str(): c});
                let v = guard(|| MxMessage::from_json(&j.to_string()).map(|m| variant(&m.document)));
                rel.push(format!("[{},{}]", jstr(&x), match v { Ok(Ok(v)) => jstr(&v), Ok(Err(_)) => "\"refused\"".into(), Err(e) => jstr(&e) }));
            }
            out.put(&format!("{{\"a\":\"Types\",\"rt\":{},\"doc_ns\":{doc_ns},\"mx_ns\":{mx_ns},\"json_el\":{json_el},\"xml_el\":{xml_el},\"variant_json\":{vj},\"variant_xml\":{vx},\"peek_xml\":{px},\"peek_json\":{pj},\"pipe_json\":{pipej},\"pipe_xml\":{pipex},\"pipe_meta\":{},\"doconly_el\":{dol},\"offered\":[{}],\"relabelled\":[{}]}}",
                m.rt, jstr(&meta), offered.join(","), rel.join(",")), 100);
        }
    }
    println!("{{\"names\":{},\"events\":{}}}", names.len(), out.lines);
}
