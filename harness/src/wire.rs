//! Independent readers of what the library writes: a strict JSON reader and a strict XML tokenizer, turned into the
//! neutral form the specification compares (texts by number, numbers by their canonical decimal form).
use crate::dict::*; use crate::tree::*; use crate::ops::*; use crate::gen_::*;
use std::fmt::Write;
/// short plain texts are also written out, so that codes can be compared
fn plain(s: &str) -> &str { if s.len() <= 40 && !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"._-".contains(&b)) { s } else { "" } }
/// canonical form of a decimal numeral: no sign for zero, no leading/trailing zeros, no exponent; "" if not a numeral
pub fn canon(t: &str, exponent: bool) -> String {
    let (neg, u) = match t.strip_prefix('-') { Some(u) => (true, u), None => (false, t) };
    let (mant, exp) = match u.find(['e', 'E']) { Some(i) if exponent => (&u[..i], match u[i + 1..].parse::<i32>() { Ok(e) => e, Err(_) => return String::new() }), Some(_) => return String::new(), None => (u, 0) };
    let (a, b) = mant.split_once('.').unwrap_or((mant, ""));
    if a.is_empty() || !a.bytes().chain(b.bytes()).all(|c| c.is_ascii_digit()) || (mant.contains('.') && b.is_empty()) || exp.abs() > 400 { return String::new() }
    let mut digits = format!("{a}{b}");
    let mut point = a.len() as i32 + exp;
    while point < 0 { digits.insert(0, '0'); point += 1; }
    while (digits.len() as i32) < point { digits.push('0'); }
    let (i, f) = digits.split_at(point as usize);
    let i = i.trim_start_matches('0'); let f = f.trim_end_matches('0');
    let i = if i.is_empty() { "0" } else { i };
    let z = i == "0" && f.is_empty();
    format!("{}{i}{}{f}", if neg && !z { "-" } else { "" }, if f.is_empty() { "" } else { "." })
}
// ---------------------------------------------------------------- JSON
struct J<'a> { s: &'a [u8], i: usize, d: &'a Dict, out: String }
impl<'a> J<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t' | b'\r') { self.i += 1 } }
    fn eat(&mut self, c: u8) -> Result<(), String> { if self.s.get(self.i) == Some(&c) { self.i += 1; Ok(()) } else { Err(format!("expected {:?} at {}", c as char, self.i)) } }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let st = self.i;
        loop {
            match self.s.get(self.i) {
                None => return Err("unterminated string".into()),
                Some(b'"') => break,
                Some(b'\\') => self.i += 2,
                Some(c) if *c < 32 => return Err("control character in string".into()),
                Some(_) => self.i += 1,
            }
        }
        self.i += 1;
        serde_json::from_slice::<String>(&self.s[st - 1..self.i]).map_err(|e| e.to_string())
    }
    fn value(&mut self, depth: usize) -> Result<(), String> {
        if depth > 200 { return Err("too deep".into()) }
        self.ws();
        match self.s.get(self.i) {
            Some(b'{') => {
                self.i += 1; self.out.push_str("[\"o\",["); let mut first = true;
                loop {
                    self.ws();
                    if first && self.s.get(self.i) == Some(&b'}') { self.i += 1; break }
                    if !first { self.out.push(',') } first = false;
                    let k = self.string()?;
                    let _ = write!(self.out, "[{},", jstr(&k));
                    self.ws(); self.eat(b':')?; self.value(depth + 1)?; self.out.push(']'); self.ws();
                    match self.s.get(self.i) { Some(b',') => self.i += 1, Some(b'}') => { self.i += 1; break } _ => return Err("object".into()) }
                }
                self.out.push_str("]]");
            }
            Some(b'[') => {
                self.i += 1; self.out.push_str("[\"a\",["); let mut first = true;
                loop {
                    self.ws();
                    if first && self.s.get(self.i) == Some(&b']') { self.i += 1; break }
                    if !first { self.out.push(',') } first = false;
                    self.value(depth + 1)?; self.ws();
                    match self.s.get(self.i) { Some(b',') => self.i += 1, Some(b']') => { self.i += 1; break } _ => return Err("array".into()) }
                }
                self.out.push_str("]]");
            }
            Some(b'"') => { let t = self.string()?; let _ = write!(self.out, "[\"s\",{},{}]", self.d.id(&t), jstr(plain(&t))); }
            Some(b't') if self.s[self.i..].starts_with(b"true") => { self.i += 4; self.out.push_str("[\"b\",true]") }
            Some(b'f') if self.s[self.i..].starts_with(b"false") => { self.i += 5; self.out.push_str("[\"b\",false]") }
            Some(b'n') if self.s[self.i..].starts_with(b"null") => { self.i += 4; self.out.push_str("[\"z\"]") }
            Some(_) => {
                let st = self.i;
                while self.i < self.s.len() && matches!(self.s[self.i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') { self.i += 1 }
                let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                let c = canon(&t.replace("e+", "e"), true);
                let lead = t.trim_start_matches('-');
                if c.is_empty() || (lead.len() > 1 && lead.starts_with('0') && lead.as_bytes()[1].is_ascii_digit()) { return Err(format!("bad number {t:?}")) }
                let _ = write!(self.out, "[\"n\",{}]", jstr(&c));
            }
            None => return Err("end of input".into()),
        }
        Ok(())
    }
}
/// neutral form of a JSON text; ["!", reason] if it is not JSON
pub fn read_json(d: &Dict, s: &str) -> String {
    let mut j = J { s: s.as_bytes(), i: 0, d, out: String::new() };
    let r = j.value(0).and_then(|_| { j.ws(); if j.i == j.s.len() { Ok(()) } else { Err("trailing characters".into()) } });
    match r { Ok(()) => j.out, Err(e) => format!("[\"!\",{}]", jstr(&e)) }
}
// ---------------------------------------------------------------- XML
fn xml_char(c: char) -> bool { matches!(c as u32, 9 | 10 | 13 | 0x20..=0xD7FF | 0xE000..=0xFFFD | 0x10000..=0x10FFFF) }
fn unref(s: &str, attr: bool) -> Result<String, String> {
    // line ends as an XML processor reports them; in attribute values white space becomes a blank
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\r' => { if it.peek() == Some(&'\n') { it.next(); } o.push(if attr { ' ' } else { '\n' }) }
            '\n' | '\t' if attr => o.push(' '),
            '<' => return Err("'<' in character data".into()),
            '&' => {
                let mut n = String::new();
                loop { match it.next() { Some(';') => break, Some(c) if n.len() < 12 => n.push(c), _ => return Err("unterminated reference".into()) } }
                match n.as_str() {
                    "amp" => o.push('&'), "lt" => o.push('<'), "gt" => o.push('>'), "quot" => o.push('"'), "apos" => o.push('\''),
                    _ => {
                        let v = if let Some(h) = n.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() } else if let Some(x) = n.strip_prefix('#') { x.parse().ok() } else { None };
                        match v.and_then(char::from_u32).filter(|c| xml_char(*c)) { Some(c) => o.push(c), None => return Err(format!("reference &{n};")) }
                    }
                }
            }
            c if !xml_char(c) => return Err(format!("character U+{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    Ok(o)
}
fn name_ok(n: &str) -> bool { n.chars().next().is_some_and(|c| c.is_alphabetic() || c == '_') && n.chars().all(|c| c.is_alphanumeric() || "_:.-".contains(c)) }
fn textjs(d: &Dict, t: &str) -> String { format!("{},{},{}", d.id(t), jstr(plain(t)), jstr(&canon(t, false))) }
/// tokens ["<", name, [[attr, id, plain, num]...]] | [">", name] | ["t", id, plain, num], in document order.
/// Lexical rules are checked here (Err); nesting, order and completeness are judged by the specification.
pub fn xml_tokens(d: &Dict, s: &str) -> Result<String, String> {
    let mut o = String::from("[");
    let mut rest = s;
    let mut depth = 0usize;
    if rest.starts_with("<?xml ") { let e = rest.find("?>").ok_or("declaration")?; rest = &rest[e + 2..]; }
    let push = |o: &mut String, t: String| { if o.len() > 1 { o.push(',') } o.push_str(&t) };
    // text since the last tag; is any of it more than plain white space; was that tag an opening one
    let (mut text, mut solid, mut opened) = (None::<String>, false, false);
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("<!--") {
            let e = r.find("--").ok_or("comment")?;
            rest = r[e + 2..].strip_prefix('>').ok_or("-- in comment")?;
            continue
        }
        if let Some(r) = rest.strip_prefix("<?") {
            let e = r.find("?>").ok_or("processing instruction")?;
            if r[..e].to_lowercase().starts_with("xml ") { return Err("second declaration".into()) }
            rest = &r[e + 2..];
            continue
        }
        if let Some(r) = rest.strip_prefix("<![CDATA[") {
            let e = r.find("]]>").ok_or("CDATA section")?;
            if depth == 0 { return Err("text outside the root".into()) }
            if let Some(c) = r[..e].chars().find(|c| !xml_char(*c)) { return Err(format!("character U+{:04X}", c as u32)) }
            text.get_or_insert_with(String::new).push_str(&r[..e].replace("\r\n", "\n").replace('\r', "\n")); solid = true;
            rest = &r[e + 3..];
            continue
        }
        if rest.starts_with('<') {
            // white space between elements is layout, within a leaf it is content
            if let Some(t) = text.take() { if solid || (opened && rest.starts_with("</")) { push(&mut o, format!("[\"t\",{}]", textjs(d, &t))) } }
            solid = false; opened = false;
        }
        if let Some(r) = rest.strip_prefix("</") {
            let e = r.find('>').ok_or("end tag")?;
            let n = r[..e].trim_end();
            if !name_ok(n) { return Err(format!("end tag {n:?}")) }
            depth = depth.checked_sub(1).ok_or("end tag without start")?;
            push(&mut o, format!("[\">\",{}]", jstr(n)));
            rest = &r[e + 1..];
        } else if rest.starts_with('<') {
            let r = &rest[1..];
            let e = r.find([' ', '\t', '\n', '\r', '>', '/']).ok_or("start tag")?;
            let n = &r[..e];
            if !name_ok(n) { return Err(format!("start tag {n:?}")) }
            let mut r = &r[e..];
            let mut attrs: Vec<(String, String)> = vec![];
            let empty = loop {
                let t = r.trim_start_matches([' ', '\t', '\n', '\r']);
                if let Some(t) = t.strip_prefix("/>") { r = t; break true }
                if let Some(t) = t.strip_prefix('>') { r = t; break false }
                if t.len() == r.len() { return Err("no blank before attribute".into()) }
                let e = t.find(['=', '>', '<', ' ']).ok_or("attribute")?;
                let an = &t[..e];
                if !name_ok(an) || !t[e..].starts_with('=') { return Err(format!("attribute {an:?}")) }
                let q = t[e + 1..].chars().next().filter(|c| *c == '"' || *c == '\'').ok_or("attribute quote")?;
                let v = &t[e + 2..];
                let ve = v.find(q).ok_or("attribute value")?;
                if attrs.iter().any(|a| a.0 == an) { return Err(format!("duplicate attribute {an}")) }
                attrs.push((an.to_string(), unref(&v[..ve], true)?));
                r = &v[ve + 1..];
            };
            let a: Vec<String> = attrs.iter().map(|(k, v)| format!("[{},{}]", jstr(k), textjs(d, v))).collect();
            push(&mut o, format!("[\"<\",{},[{}]]", jstr(n), a.join(",")));
            if empty { push(&mut o, format!("[\">\",{}]", jstr(n))) } else { depth += 1; opened = true }
            rest = r;
        } else {
            let e = rest.find('<').unwrap_or(rest.len());
            let t = &rest[..e];
            if t.contains("]]>") { return Err("]]> in character data".into()) }
            if depth == 0 { if !t.trim_matches([' ', '\t', '\n', '\r']).is_empty() { return Err("text outside the root".into()) } }
            else { text.get_or_insert_with(String::new).push_str(&unref(t, false)?); solid |= !t.trim_matches([' ', '\t', '\n', '\r']).is_empty() }
            rest = &rest[e..];
        }
    }
    o.push(']');
    Ok(o)
}
// ---------------------------------------------------------------- complete messages
pub const HDR: &str = "bah_pacs_008_001_08";
/// a complete message: type (root index), header tree, document tree, namespaces
#[derive(Clone)]
pub struct Mx { pub rt: usize, pub h: Node, pub d: Node, pub ns: [Option<String>; 2] }
impl Mx {
    pub fn root<'a>(&self, d: &'a Dict) -> &'a RootD { &d.roots[self.rt - 1] }
    pub fn json(&self, d: &Dict) -> String {
        let mut s = String::from("{");
        for (k, v) in ["@xmlns", "@xmlns:xsi"].iter().zip(&self.ns) { if let Some(v) = v { let _ = write!(s, "{}:{},", jstr(k), jstr(v)); } }
        s.push_str("\"AppHdr\":"); json(d, d.root(HDR).r, &self.h, &mut s);
        let _ = write!(s, ",\"Document\":{{{}:", jstr(&self.root(d).el)); json(d, self.root(d).r, &self.d, &mut s);
        s.push_str("}}");
        s
    }
    pub fn hdr_xml(&self, d: &Dict) -> String { let mut s = String::new(); xml(d, "AppHdr", d.root(HDR).r, &self.h, &mut s); s }
    pub fn doc_xml(&self, d: &Dict) -> String { let mut s = String::new(); xml(d, &self.root(d).el, self.root(d).r, &self.d, &mut s); s }
    pub fn xml(&self, d: &Dict) -> String {
        let mut s = String::from("<Envelope");
        for (k, v) in ["xmlns", "xmlns:xsi"].iter().zip(&self.ns) { if let Some(v) = v { let _ = write!(s, " {k}=\"{}\"", esc(v)); } }
        format!("{s}>{}<Document>{}</Document></Envelope>", self.hdr_xml(d), self.doc_xml(d))
    }
    pub fn leaves(&self) -> usize { self.h.leaves() + self.d.leaves() }
    /// the event fields that say which message this is
    pub fn js(&self, d: &Dict) -> String {
        let ns: Vec<String> = self.ns.iter().map(|n| n.as_ref().map_or("0".into(), |n| d.id(n).to_string())).collect();
        format!("\"rt\":{},\"ns\":[{}],\"h\":{},\"d\":{}", self.rt, ns.join(","), self.h.js(), self.d.js())
    }
}
/// header tree whose MsgDefIdr is the full identifier of the type (so that header and document agree)
pub fn header(g: &mut Gen, full: &str) -> Node {
    let t = g.d.root(HDR).r;
    let mut n = g.build(t);
    set_text(g.d, t, &mut n, "MsgDefIdr", full);
    n
}
pub fn set_text(d: &Dict, t: usize, n: &mut Node, name: &str, s: &str) {
    let Node::S(fs) = n else { return };
    let i = d.ty(t).iter().position(|f| f.x == name).unwrap();
    fs[i] = vec![Node::L(d.leaf_of(d.ty(t)[i].r, s))];
}
pub fn get_text(d: &Dict, t: usize, n: &Node, name: &str) -> String {
    let Node::S(fs) = n else { unreachable!() };
    let i = d.ty(t).iter().position(|f| f.x == name).unwrap();
    let Node::L(w) = fs[i][0] else { unreachable!() };
    d.text(&d.ty(t)[i], w)
}
/// the registered types, as root indices
pub fn registered(d: &Dict) -> Vec<usize> { (1..=d.roots.len()).filter(|i| !d.roots[i - 1].mt.is_empty()).collect() }
