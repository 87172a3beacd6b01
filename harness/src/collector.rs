//! C16: replays of collector histories, parse results, error conversion.
use crate::gen_::*; use crate::ops::*; use crate::out::*;
use mx_message::error::{MxError, ValidationError};
use mx_message::parse_result::{ErrorCollector, ParseResult};
type Parts = (u32, &'static str, Option<&'static str>, Option<&'static str>);
const K: usize = 6000;
const fn long<const N: usize>(c: u8) -> [u8; N] { [c; N] }
static LONG: [u8; K] = long(b'x'); static LONGP: [u8; K] = long(b'.');
const fn utf(b: &'static [u8]) -> &'static str { match std::str::from_utf8(b) { Ok(s) => s, Err(_) => panic!() } }
const NERR: usize = 9;
static ERRS: [Parts; NERR] = [(1001, "too short", Some("Nm"), Some("A.B.Nm")), (1001, "too short", None, None), (0, "", Some(""), Some("")), (u32::MAX, "é\n{}", Some("Nm"), None),
    (1001, "too short", None, Some("A.B.Nm")), (1003, "too short", Some("A.B.Nm"), Some("Nm")),
    (1005, utf(&LONG), Some(utf(&LONG)), Some(utf(&LONGP))), (9999, " too short ", Some(" Nm "), Some(" A.B.Nm\t")), (1001, "too short", Some("A.B.Nm"), Some("Nm"))];
fn make(i: usize) -> ValidationError {
    let (c, m, f, p) = ERRS[i - 1];
    let mut e = ValidationError::new(c, m.to_string());
    // either order of the builder calls
    if i % 2 == 0 { if let Some(p) = p { e = e.with_path(p.to_string()) } }
    if let Some(f) = f { e = e.with_field(f.to_string()) }
    if i % 2 == 1 { if let Some(p) = p { e = e.with_path(p.to_string()) } }
    e
}
fn no(code: u32, m: &str, f: &Option<String>, p: &Option<String>) -> usize {
    ERRS.iter().position(|x| x.0 == code && x.1 == m && x.2 == f.as_deref() && x.3 == p.as_deref()).map_or(0, |i| i + 1)
}
fn of(e: &ValidationError) -> usize { no(e.code, &e.message, &e.field, &e.path) }
fn list<'a>(es: impl IntoIterator<Item = &'a ValidationError>) -> String { format!("[{}]", es.into_iter().map(|e| of(e).to_string()).collect::<Vec<_>>().join(",")) }
fn obs(c: &ErrorCollector) -> String { format!("[{},{},{}]", c.error_count(), c.has_errors(), c.has_critical_errors()) }
fn history(ops: &[(bool, usize)]) -> String {
    let o: Vec<String> = ops.iter().map(|(c, e)| format!("[\"{}\",{e}]", if *c { "crit" } else { "add" })).collect();
    let r = guard(|| {
        let mut c = if ops.len() % 2 == 0 { ErrorCollector::new() } else { ErrorCollector::default() };
        let mut seen = vec![obs(&c)];
        for (crit, e) in ops { if *crit { c.add_critical_error(make(*e)) } else { c.add_error(make(*e)) } seen.push(obs(&c)); }
        format!("\"obs\":[{}],\"end\":{}", seen.join(","), list(&c.errors()))
    });
    format!("{{\"a\":\"Collector\",\"ops\":[{}],{}}}", o.join(","), r.unwrap_or_else(|_| "\"obs\":[],\"end\":[]".into()))
}
fn result(kind: &str, es: &[usize]) -> ParseResult<usize> {
    let v: Vec<ValidationError> = es.iter().map(|e| make(*e)).collect();
    match kind { "S" => ParseResult::Success(7), "P" => ParseResult::PartialSuccess(7, v), _ => ParseResult::Failure(v) }
}
pub fn c16(seed: u64, thorough: bool, dir: &str, work: &str) {
    let mut out = Chunks::new(dir, "t", 4);
    let mut n = 0;
    for line in std::fs::read_to_string(format!("{work}/collector.ndjson")).expect("behaviours").lines() {
        let h: Vec<(String, usize)> = serde_json::from_str(line).unwrap();
        let h: Vec<(bool, usize)> = h.into_iter().map(|(o, e)| (o == "crit", e)).collect();
        out.put(&history(&h), h.len()); n += 1;
    }
    // long histories
    let mut g = Rng::new(seed, "c16");
    for k in 0..if thorough { 3000 } else { 300 } {
        let len = if k % 60 == 7 { 1000 + g.below(700) } else { g.below(if k % 10 == 0 { 300 } else { 40 }) };
        let p = g.below(5);
        let h: Vec<(bool, usize)> = (0..len).map(|_| (g.chance(p, 6), 1 + g.below(NERR))).collect();
        out.put(&history(&h), len);
    }
    // parse results: all kinds with all error lists up to three
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for a in 1..=NERR { lists.push(vec![a]); for b in 1..=NERR { lists.push(vec![a, b]); for c in 1..=3 { lists.push(vec![a, b, c]) } } }
    // and of every length
    for n in (4..70).chain([99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 999, 1000, 1001, 1024, 1025, 5000]) { lists.push((0..n).map(|_| 1 + g.below(NERR)).collect()) }
    for kind in ["S", "P", "F"] {
        for es in &lists {
            if kind == "S" && !es.is_empty() { continue }
            let r = guard(|| {
                let r = result(kind, es);
                let head = format!("{},{},{},{}", r.is_success(), r.is_failure(), r.value().copied().unwrap_or(0), list(r.errors()));
                let res = match if es.len() % 2 == 0 { r.to_result() } else { r.clone().to_result() } { Ok(v) => format!("[\"ok\",{v}]"), Err(e) => format!("[\"err\",{}]", list(&e)) };
                format!("[{head},{res}]")
            });
            out.put(&format!("{{\"a\":\"Result\",\"kind\":\"{kind}\",\"val\":7,\"errs\":{es:?},\"obs\":{}}}", r.unwrap_or_else(|_| "[\"panic\"]".into())), 1);
        }
    }
    let some: Vec<(&str, &Vec<usize>)> = ["S", "P", "F"].iter().flat_map(|k| lists.iter().filter(|l| l.len() < 2 && (*k != "S" || l.is_empty())).map(move |l| (*k, l))).collect();
    for a in &some { for b in &some {
        let eq = guard(|| result(a.0, a.1) == result(b.0, b.1)).map_or("\"panic\"".to_string(), |b| b.to_string());
        out.put(&format!("{{\"a\":\"Same\",\"l\":[\"{}\",{:?}],\"r\":[\"{}\",{:?}],\"eq\":{eq}}}", a.0, a.1, b.0, b.1), 1);
    } }
    for i in 1..=NERR {
        let conv = guard(|| match MxError::from(make(i)) { MxError::Validation { code, message, field, path } => no(code, &message, &field, &path), _ => 0 }).unwrap_or(0);
        let into = guard(|| { let e: MxError = make(i).into(); if let MxError::Validation { code, message, field, path } = e { no(code, &message, &field, &path) } else { 0 } }).unwrap_or(0);
        for (via, o) in [("MxError", conv), ("MxError", into), ("builder", of(&make(i))), ("clone", of(&make(i).clone()))] { out.put(&format!("{{\"a\":\"Convert\",\"via\":\"{via}\",\"e\":{i},\"out\":{o}}}"), 1); }
    }
    println!("{{\"histories_from_spec\":{n},\"events\":{}}}", out.lines);
}
