//! Framings of messages, as token lists from the specification (Envelope.tla, Framings.tla), turned into text.
use crate::dict::*; use crate::gen_::*; use crate::ops::*; use crate::out::*; use crate::tree::*; use crate::wire::*; use crate::wirechecks::*;
use mx_message::MxMessage;
use serde_json::Value;
/// attribute values, numbered from 1
pub const VALUES: [&str; 8] = ["urn:iso:std:iso:20022:tech:xsd:head.001.001.02", "http://www.w3.org/2001/XMLSchema-instance", "", "urn:x?a=1&b=2", "a>b/>", "<AppHdr> xmlns=\"urn:evil\" ", "it's \"q\" </Document>", "é=>"];
const WS: [&str; 4] = ["", " ", "\n", "\r\n\t  "];
/// white space: short forms, a lone carriage return, long and very long
fn ws(k: usize) -> String { match k { 1..=4 => WS[k - 1].into(), 5 => "\r".into(), 6 => " ".repeat(300) + "\n", _ => " \n".repeat(9000) } }
const DECL: [&str; 6] = ["", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>", "<?xml version=\"1.0\" encoding='utf-8' ?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"];
fn attrs(v: &Value) -> String {
    let mut s = String::new();
    for a in v.as_array().unwrap() {
        let (n, t, st) = (a[0].as_str().unwrap(), VALUES[a[1].as_u64().unwrap() as usize - 1], a[2].as_str().unwrap());
        let e = t.replace('&', "&amp;").replace('<', "&lt;");
        let (dq, sq) = (e.replace('"', "&quot;"), e.replace('\'', "&apos;"));
        s.push_str(&match st { "sq" => format!(" {n}='{sq}'"), "spaced" => format!("  {n} = \"{dq}\""), "lines" => format!("\n\t{n}=\"{dq}\""), "crlf" => format!("\r\n  {n}=\"{dq}\""), "tab" => format!("\t{n}=\"{dq}\"\t"), "eqlines" => format!(" {n}\n=\r\n\t\"{dq}\""), "refs" => format!(" {n}=\"{}\"", t.chars().enumerate().map(|(i, c)| if i % 2 == 0 { format!("&#{};", c as u32) } else { format!("&#x{:X};", c as u32) }).collect::<String>()), "sqfar" => format!("{}{n}='{sq}'   ", " ".repeat(200)), "far" => format!("{}{n}=\"{dq}\"\n\n", "\n ".repeat(150)), _ => format!(" {n}=\"{dq}\"") });
        if st == "lines" { s.push('\n') }
    }
    s
}
fn inner(x: &str) -> &str { let a = x.find('>').unwrap() + 1; let b = x.rfind("</").unwrap(); &x[a..b] }
/// the text of a token list framing the message
pub fn render(d: &Dict, toks: &Value, m: &Mx) -> String {
    let (h, doc) = (m.hdr_xml(d), m.doc_xml(d));
    let el = &m.root(d).el;
    let mut s = String::new();
    for t in toks.as_array().unwrap() {
        match t[0].as_str().unwrap() {
            "decl" => s.push_str(DECL[t[1].as_u64().unwrap() as usize - 1]),
            "ws" => s.push_str(&ws(t[1].as_u64().unwrap() as usize)),
            "open" => s.push_str(&format!("<{}{}>", t[1].as_str().unwrap(), attrs(&t[2]))),
            "close" => s.push_str(&format!("</{}>", t[1].as_str().unwrap())),
            "note" => s.push_str(note(t[1].as_u64().unwrap() as usize)),
            "text" => s.push_str(t[1].as_str().unwrap()),
            "hdr" => s.push_str(inner(&h)),
            _ => {
                let n = match t[1].as_str().unwrap() { "" => el.clone(), "~" => format!("{el}x"), "^" => el[..el.len() - 1].into(), n => n.into() };
                s.push_str(&format!("<{n}{}>{}</{n}>", attrs(&t[2]), inner(&doc)))
            }
        }
    }
    s
}
pub fn lines(work: &str, name: &str) -> Vec<Value> { std::fs::read_to_string(format!("{work}/{name}.ndjson")).expect("behaviours").lines().map(|l| serde_json::from_str(l).unwrap()).collect() }
/// source of small messages of every registered type, in rotation
pub struct Pool<'a> { pub d: &'a Dict, g: Vec<(usize, Gen<'a>)>, gh: Gen<'a>, k: usize }
impl<'a> Pool<'a> {
    pub fn new(d: &'a Dict, seed: u64, salt: &str) -> Pool<'a> {
        let mut gh = Gen::new(d, seed, &format!("poolh{salt}"), Leaf::Clean); gh.begin(d.root(HDR).r);
        let g = registered(d).into_iter().map(|i| { let r = &d.roots[i - 1]; let mut g = Gen::new(d, seed, &format!("pool{salt}{}", r.m), Leaf::Clean); g.begin(r.r); (i, g) }).collect();
        Pool { d, g, gh, k: 0 }
    }
    /// trimmed: no text begins or ends with white space that its writing would not keep
    pub fn next(&mut self, trimmed: bool) -> Mx {
        let k = self.k; self.k += 1;
        let n = self.g.len();
        let (i, g) = &mut self.g[k % n];
        let round = k / n;
        for g in [&mut *g, &mut self.gh] {
            g.trim = trimmed && round % 6 < 2;
            g.leaf = [Leaf::Hostile, Leaf::Any, Leaf::Hostile, Leaf::Clean][round % 4];
            g.popt = [8, 3, 15, 0, 30][round % 5]; g.pvec = 15; g.budget = [40, 25, 60][round % 3]; g.bigvec = 0;
        }
        let r = &self.d.roots[*i - 1];
        let h = if round % 7 == 6 { self.gh.build(self.d.root(HDR).r) } else { header(&mut self.gh, if round % 2 == 0 { &r.full } else { &r.mt }) };
        STYLE.set(round % 6);
        Mx { rt: *i, h, d: g.build(r.r), ns: [None, None] }
    }
}
pub fn vals(d: &Dict) -> String { format!("[{}]", VALUES.iter().map(|v| d.id(v).to_string()).collect::<Vec<_>>().join(",")) }
pub fn c09(d: &Dict, seed: u64, thorough: bool, dir: &str, work: &str) {
    let mut out = Chunks::new(dir, "t", 8);
    let mut p = Pool::new(d, seed, "c09");
    let mut fs = lines(work, "framings"); let ds = lines(work, "deep"); let deep = ds.len(); fs.extend(ds);
    for _ in 0..if thorough { 1 } else { 2 } {
        for f in &fs {
            locals_reset();
            let m = p.next(true);
            let s = render(d, f, &m);
            let j = jres(d, guard(|| MxMessage::from_xml(&s).and_then(|m| m.to_json()).map_err(|e| e.to_string())));
            let v = vals(d);
            out.put(&format!("{{\"a\":\"Framed\",\"toks\":{f},\"vals\":{v},\"j\":{j},{},\"x\":{}}}", m.js(d), locals_js()), 20 + m.leaves());
        }
    }
    println!("{{\"framings_from_spec\":{},\"random_framings\":{},\"events\":{}}}", fs.len() - deep, deep, out.lines);
}
