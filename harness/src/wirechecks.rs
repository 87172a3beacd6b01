//! C04 / C05 / C06: what the library writes, and what it reads back.
use crate::dict::*; use crate::gen_::*; use crate::ops::*; use crate::rules::{Batch, finish, per_root}; use crate::tree::*; use crate::wire::*;
use mx_message::MxMessage;
/// settings of the k-th message: everything once, then clean, sampled, hostile, sparse, dense, long repetitions
pub fn tune(g: &mut Gen, k: usize) {
    g.bigvec = 0; g.pvec = 25;
    match k {
        0 => { g.leaf = Leaf::Cover; g.popt = 100; g.budget = i64::MAX; }
        1 => { g.leaf = Leaf::Clean; g.popt = 0; g.budget = 50; }
        _ => {
            g.leaf = [Leaf::Hostile, Leaf::Any, Leaf::Cover, Leaf::Clean, Leaf::Hostile][k % 5];
            g.popt = [30, 60, 12, 90, 45][k % 5]; g.budget = [120, 90, 160, 60, 100][(k / 5 + k) % 5];
            if k % 7 == 3 { g.bigvec = 11; }
            g.pvec = [10, 50, 30][k % 3];
        }
    }
}
pub fn namespaces(g: &mut Gen) -> [Option<String>; 2] {
    let a = ["urn:iso:std:iso:20022:tech:xsd:head.001.001.02", "http://www.w3.org/2001/XMLSchema-instance", "", "urn:x?a=1&b=2", "u\"q'<>", "é"];
    let mut one = |d: usize| match g.rng.below(6) { 0 | 1 => Some(a[d].to_string()), 2 | 3 => None, _ => Some(a[g.rng.below(a.len())].to_string()) };
    [one(0), one(1)]
}
/// very large messages: one text of any length, or one component many times
pub const BIG: usize = 4;
fn text_leaves<'a>(d: &Dict, t: usize, n: &'a mut Node, v: &mut Vec<(usize, bool, &'a mut Node)>) {
    let Node::S(fs) = n else { return };
    for (f, inst) in d.ty(t).iter().zip(fs) { for x in inst { match f.k.as_str() { "s" => v.push((f.r, f.x.starts_with('@'), x)), "t" => text_leaves(d, f.r, x, v), _ => {} } } }
}
fn most(n: &Node) -> usize { match n { Node::L(_) => 0, Node::S(fs) => fs.iter().map(|f| f.len().max(f.iter().map(most).max().unwrap_or(0))).max().unwrap_or(0) } }
pub fn long_text(n: usize, salt: usize) -> String {
    let unit = ["0123456789abcdef", "é-", "日本語 x", "<&>", "a\nb"][salt % 5];
    let mut s = format!("{salt}:"); while s.len() < n { s.push_str(unit) } s.push('.'); s
}
pub fn build_big(g: &mut Gen, t: usize, k: usize) -> Node {
    (g.leaf, g.special, g.pvec) = (Leaf::Clean, false, 10);
    if k < BIG - 1 {
        (g.popt, g.budget, g.bigvec) = (8, 30, 0);
        let mut n = g.build(t);
        let mut v = vec![]; text_leaves(g.d, t, &mut n, &mut v);
        if !v.is_empty() { let i = g.rng.below(v.len()); let (c, attr, x) = &mut v[i];
            // line feeds in attributes: F-cr
            let salt = g.rng.below(1000); **x = Node::L(g.d.leaf_of(*c, &long_text([4_090, 65_530, 1_100_000][k], if *attr { salt / 5 * 5 } else { salt }))) }
        return n;
    }
    let mut n = Node::S(vec![]);
    for _ in 0..30 { (g.popt, g.budget, g.bigvec) = (25, 20, 300); n = g.build(t); if most(&n) >= 300 { break } }
    g.bigvec = 0;
    n
}
/// bare documents and headers of every module
pub fn each_root(d: &Dict, seed: u64, n: usize, salt: &str, f: impl Fn(&RootD, &Node, &dyn Obj) -> (String, usize) + Sync) -> Vec<Batch> {
    per_root(d, |r| {
        let root = root(&r.m);
        let mut b = Batch::default();
        let mut g = Gen::new(d, seed, &format!("{salt}{}", r.m), Leaf::Cover);
        g.begin(r.r);
        b.sites = g.sites;
        let mut k = 0;
        // n tuned messages, then as many as it takes to show every code of every code field and every special text in every text field
        // and some very large ones
        let mut big = 0;
        while k < n || (g.uncovered(r.r) > 0 && k < n + 600) || big < BIG {
            locals_reset();
            let large = k >= n && !(g.uncovered(r.r) > 0 && k < n + 600);
            if large {} else if k < n { tune(&mut g, k) } else { if k == n { g.special = true; g.begin(r.r); } g.leaf = Leaf::Cover; g.popt = 3; g.budget = 150; g.bigvec = 0; }
            k += 1;
            g.long = salt == "c04" && k == n;
            let n = if large { big += 1; let m = g.uncovered(r.r); b.missed = m; build_big(&mut g, r.r, big - 1) } else { g.build(r.r) };
            let mut js = String::new();
            json(d, r.r, &n, &mut js);
            let (line, cost) = match guard(|| (root.from_json)(&js)) {
                Ok(Ok(o)) if g.long => { let (l, c) = f(r, &n, &*o); (l.replace("\"Json\"", "\"JsonPrecise\""), c) }
                Ok(Ok(o)) => f(r, &n, &*o),
                Ok(Err(e)) | Err(e) => (format!("\"a\":\"refused\",\"why\":{}", jstr(&e)), 0),
            };
            b.leaves += n.leaves();
            b.lines.push((format!("{{\"root\":{},\"r\":{},{line},\"m\":{},\"x\":{}}}", jstr(&r.m), r.r, n.js(), locals_js()), cost.max(1)));
        }
        b
    })
}
/// complete messages of every registered type
pub fn each_mx(d: &Dict, seed: u64, n: usize, salt: &str, f: impl Fn(&Mx, usize, &MxMessage) -> (String, usize) + Sync) -> Vec<Batch> {
    per_root(d, |r| {
        let mut b = Batch::default();
        if r.mt.is_empty() { return b }
        let mut g = Gen::new(d, seed, &format!("mx{salt}{}", r.m), Leaf::Cover);
        g.begin(r.r); 
        let mut gh = Gen::new(d, seed, &format!("hdr{salt}{}", r.m), Leaf::Cover);
        gh.begin(d.root(HDR).r);
        let mut k = 0;
        // n tuned messages; special texts everywhere in the header, for cycles in the document as well; very large messages
        let hdr = d.root(HDR).r;
        let (mut big, mut specials) = (0, 0);
        while big < BIG {
            locals_reset();
            if k == n { (g.special, gh.special) = (true, true); g.begin(r.r); gh.begin(hdr); }
            let special = k >= n && specials < 600 && if salt == "c14" { g.uncovered(r.r) + gh.uncovered(hdr) > 0 } else { gh.uncovered(hdr) > 0 };
            let large = k >= n && !special;
            if large { (gh.leaf, gh.popt, gh.bigvec) = (Leaf::Clean, 3, 0); big += 1 }
            else if k < n { tune(&mut g, if k == 0 && r.m.starts_with("camt_05") { 2 } else { k }); tune(&mut gh, k); }
            else {
                specials += 1;
                (gh.leaf, gh.popt, gh.budget, gh.bigvec) = (Leaf::Cover, 3, 150, 0);
                if salt == "c14" { (g.leaf, g.popt, g.budget, g.bigvec) = (Leaf::Cover, 3, 150, 0) } else { (g.leaf, g.popt, g.budget, g.bigvec) = (Leaf::Hostile, 0, 8, 0) }
            }
            // the largest part is the header or the document
            let hbig = large && (big + d.root_ix(&r.m)) % 2 == 0;
            let h = if hbig { let mut n = build_big(&mut gh, hdr, if big % 4 == 0 { big - 1 } else { BIG - 1 }); if k % 2 == 0 { set_text(d, hdr, &mut n, "MsgDefIdr", &r.full) } n } else if k % 3 == 2 || (special && gh.uncovered(hdr) > 0) { gh.build(hdr) } else { header(&mut gh, &r.full) };
            let m = Mx { rt: d.root_ix(&r.m), h, d: if hbig { (g.leaf, g.special, g.popt, g.budget) = (Leaf::Clean, false, 0, 8); g.build(r.r) } else if large { build_big(&mut g, r.r, big - 1) } else { g.build(r.r) }, ns: namespaces(&mut g) };
            let js = m.json(d);
            let (line, cost) = match guard(|| MxMessage::from_json(&js).map_err(|e| e.to_string())) {
                Ok(Ok(o)) => f(&m, k, &o),
                Ok(Err(e)) | Err(e) => (format!("\"a\":\"refused\",\"why\":{}", jstr(&e)), 0),
            };
            b.leaves += m.leaves();
            b.lines.push((format!("{{\"root\":{},{line},{},\"x\":{}}}", jstr(&r.m), m.js(d), locals_js()), cost.max(1)));
            k += 1;
        }
        b
    })
}
/// JSON neutral form, or what went wrong
pub fn jres(d: &Dict, r: Result<Result<String, String>, String>) -> String {
    match r { Ok(Ok(s)) => read_json(d, &s), Ok(Err(e)) => format!("[\"!\",{}]", jstr(&e)), Err(e) => format!("[\"panic\",{}]", jstr(&e)) }
}
pub fn tokens(d: &Dict, r: &Result<Result<String, String>, String>) -> String {
    match r {
        Ok(Ok(s)) => xml_tokens(d, s).unwrap_or_else(|e| format!("[[\"!\",{}]]", jstr(&e))),
        Ok(Err(e)) => format!("[[\"!\",{}]]", jstr(e)), Err(e) => format!("[[\"panic\",{}]]", jstr(e)),
    }
}
fn mxj(m: &MxMessage) -> Result<Result<String, String>, String> { guard(|| m.to_json().map_err(|e| e.to_string())) }
pub fn c04(d: &Dict, seed: u64, thorough: bool, dir: &str) {
    let n = if thorough { 150 } else { 16 };
    let mut all = each_root(d, seed, n, "c04", |r, n, o| {
        let s = guard(|| o.json());
        let eq = matches!(&s, Ok(Ok(s)) if guard(|| (root(&r.m).from_json)(s).is_ok_and(|p| p.same(o) && p.json().ok().as_ref() == Some(s))).unwrap_or(false));
        (format!("\"a\":\"Json\",\"j\":{},\"eq\":{eq}", jres(d, s)), n.leaves())
    });
    all.extend(each_mx(d, seed, n, "c04", |m, k, o| {
        // both renderings: to_json (pretty) and serde's compact form
        let s = if k % 2 == 0 { mxj(o) } else { guard(|| serde_json::to_string(o).map_err(|e| e.to_string())) };
        let eq = matches!(&s, Ok(Ok(s)) if guard(|| MxMessage::from_json(s).is_ok_and(|p| p == *o && p.to_json().ok() == o.to_json().ok())).unwrap_or(false));
        (format!("\"a\":\"MxJson\",\"j\":{},\"eq\":{eq}", jres(d, s)), m.leaves())
    }));
    finish(all, dir, 8);
}
pub fn c05(d: &Dict, seed: u64, thorough: bool, dir: &str) {
    let n = if thorough { 150 } else { 16 };
    let mut all = each_root(d, seed, n, "c05", |r, n, o| {
        let s = guard(|| o.xml());
        (format!("\"a\":\"Xml\",\"name\":{},\"tok\":{}", jstr(&r.x), tokens(d, &s)), 2 * n.leaves())
    });
    all.extend(each_mx(d, seed, n, "c05", |m, _, o| {
        let s = guard(|| o.to_xml().map_err(|e| e.to_string()));
        (format!("\"a\":\"MxXml\",\"tok\":{}", tokens(d, &s)), 2 * m.leaves())
    }));
    finish(all, dir, 8);
}
pub fn c06(d: &Dict, seed: u64, thorough: bool, dir: &str) {
    let n = if thorough { 150 } else { 16 };
    let mut all = each_root(d, seed, n, "c06", |r, n, o| {
        let back = guard(|| o.xml().and_then(|s| (root(&r.m).from_xml)(&s)));
        let (j, eq) = match &back {
            Ok(Ok(p)) => (jres(d, guard(|| p.json())), p.same(o)),
            Ok(Err(e)) => (format!("[\"!\",{}]", jstr(e)), false), Err(e) => (format!("[\"panic\",{}]", jstr(e)), false),
        };
        (format!("\"a\":\"XmlBack\",\"j\":{j},\"eq\":{eq}"), n.leaves())
    });
    all.extend(each_mx(d, seed, n, "c06", |m, _, o| {
        let back = guard(|| o.to_xml().and_then(|s| MxMessage::from_xml(&s)).map_err(|e| e.to_string()));
        let (j, eq) = match &back {
            Ok(Ok(p)) => (jres(d, mxj(p)), p == o),
            Ok(Err(e)) => (format!("[\"!\",{}]", jstr(e)), false), Err(e) => (format!("[\"panic\",{}]", jstr(e)), false),
        };
        (format!("\"a\":\"MxXmlBack\",\"j\":{j},\"eq\":{eq}"), m.leaves())
    }));
    finish(all, dir, 8);
}
