//! C07: structural faults.  One base message per structure of every module, every fault at every field of it.
use crate::dict::*; use crate::gen_::*; use crate::ops::*; use crate::rules::{Batch, finish, per_root}; use crate::tree::*; use crate::wire::*; use crate::wirechecks::*;
use mx_message::MxMessage;
use std::collections::{HashMap, VecDeque};
pub type Path = Vec<(usize, usize)>;
#[derive(Clone, Debug)]
pub enum Op { Drop, Dup, Many(usize), Set(i64) }
pub fn at<'a>(n: &'a mut Node, p: &[(usize, usize)]) -> &'a mut Vec<Vec<Node>> {
    let Node::S(fs) = n else { unreachable!() };
    match p.first() { None => fs, Some((i, k)) => at(&mut fs[*i][*k], &p[1..]) }
}
pub fn apply(n: &Node, p: &[(usize, usize)], i: usize, op: &Op) -> Node {
    let mut n = n.clone();
    let fs = at(&mut n, p);
    match op { Op::Drop => fs[i].clear(), Op::Dup => { let x = fs[i][0].clone(); fs[i].push(x) } Op::Many(k) => fs[i] = vec![fs[i][0].clone(); *k], Op::Set(v) => fs[i] = vec![Node::L(*v)] }
    n
}
/// [[path], field, op, value] with 1-based positions
pub fn opjs(p: &Path, i: usize, op: &Op) -> String {
    let ps: Vec<String> = p.iter().map(|(i, k)| format!("[{},{}]", i + 1, k + 1)).collect();
    let (o, v) = match op { Op::Drop => ("drop", 0), Op::Dup => ("dup", 0), Op::Many(k) => ("many", *k as i64), Op::Set(v) => ("set", *v) };
    format!("[{}],{},\"{o}\",{v}", ps.join(","), i + 1)
}
/// shortest way from the root type to each type below it
pub fn routes(d: &Dict, r: usize) -> Vec<(usize, Vec<usize>)> {
    let mut seen: HashMap<usize, Vec<usize>> = HashMap::from([(r, vec![])]);
    let mut q = VecDeque::from([r]); let mut out = vec![];
    while let Some(t) = q.pop_front() {
        out.push((t, seen[&t].clone()));
        for (i, f) in d.ty(t).iter().enumerate() {
            if f.k == "t" && !seen.contains_key(&f.r) { let mut p = seen[&t].clone(); p.push(i); seen.insert(f.r, p); q.push_back(f.r); }
        }
    }
    out
}
/// a message with everything present in the structure at the end of the route and otherwise only what is mandatory
pub fn base(g: &mut Gen, t: usize, route: &[usize]) -> Node {
    let save = (g.popt, g.pvec);
    let mut n;
    if route.is_empty() {
        n = g.build(t);
        let Node::S(fs) = &mut n else { unreachable!() };
        for i in 0..fs.len() {
            if fs[i].is_empty() { let f = &g.d.ty(t)[i]; fs[i] = vec![if f.k == "t" { g.build(f.r) } else { g.leaf(t, i) }]; }
        }
    } else {
        n = g.build(t);
        let i = route[0];
        let r = g.d.ty(t)[i].r;
        let c = base(g, r, &route[1..]);
        let Node::S(fs) = &mut n else { unreachable!() };
        fs[i] = vec![c];
    }
    (g.popt, g.pvec) = save;
    n
}
/// only what is mandatory, down to the structure at the end of the route
fn least(g: &mut Gen, t: usize, route: &[usize]) -> Node {
    let mut n = g.build(t);
    if let Some(i) = route.first() {
        let c = least(g, g.d.ty(t)[*i].r, &route[1..]);
        let Node::S(fs) = &mut n else { unreachable!() };
        fs[*i] = vec![c];
    }
    n
}
/// the given instance of the structure at the end of the route, otherwise only what is mandatory
pub fn place(g: &mut Gen, t: usize, route: &[usize], x: Node) -> Node {
    let Some(i) = route.first() else { return x };
    let mut n = g.build(t);
    let c = place(g, g.d.ty(t)[*i].r, &route[1..], x);
    let Node::S(fs) = &mut n else { unreachable!() };
    fs[*i] = vec![c];
    n
}
/// names under which an element must not be recognised: other spellings of its own name
fn aliases(d: &Dict, t: usize, f: &Field) -> Vec<String> {
    let x = f.x.trim_start_matches(['@', '$']);
    let (mut snake, mut up) = (String::new(), false);
    for c in x.chars() { if c.is_uppercase() { if !up && !snake.is_empty() { snake.push('_') } snake.extend(c.to_lowercase()); up = true } else { snake.push(c); up = false } }
    let mut v = vec![x.to_lowercase(), x.to_uppercase(), snake, format!("{}{}", x[..1].to_lowercase(), &x[1..]), format!("{x}1"), format!("_{x}")];
    if x != f.x { v.push(x.into()); v.push(format!("${x}")); v.push(format!("@{x}")) }
    v.retain(|a| *a != f.x && !d.ty(t).iter().any(|g| g.x == *a));
    v.sort(); v.dedup();
    v
}
pub fn faults_of(d: &Dict, f: &Field) -> Vec<Op> {
    let mut v = vec![Op::Drop, Op::Dup];
    if f.v == 1 { v.extend([3, 11, 60, 300].map(Op::Many)) }
    match f.k.as_str() {
        "n" => { for k in 0..d.badnums.len() { v.push(Op::Set(-(k as i64))) } for k in 0..d.numx.len() { v.push(Op::Set(101 + k as i64)) } for k in 1..d.nums.len() { v.push(Op::Set(k as i64)) } }
        "b" => { for k in 0..d.badbools.len() { v.push(Op::Set(-(k as i64))) } v.push(Op::Set(1)); v.push(Op::Set(2)) }
        "e" => { for k in 0..6 { v.push(Op::Set(-k)) } for k in 1..=d.enums[f.r - 1].len() { v.push(Op::Set(k as i64)) } }
        _ => {}
    }
    v
}
/// which media can express the fault
fn media(f: &Field, op: &Op, repeated: bool) -> &'static str {
    match op {
        Op::Dup if f.x == "$value" => "j",          // adjacent texts merge in XML
        Op::Set(v) if *v > 100 => "x",              // not JSON numerals
        Op::Dup if repeated && f.v == 1 => "jx",
        _ => "jx",
    }
}
pub fn c07(d: &Dict, seed: u64, thorough: bool, dir: &str) {
    let all = per_root(d, |r| {
        let root = root(&r.m);
        let mut b = Batch::default();
        let mut g = Gen::new(d, seed, &format!("c07{}", r.m), Leaf::Clean);
        let name = &r.x;
        for (t, route) in routes(d, r.r) {
            locals_reset();
            (g.leaf, g.popt, g.pvec, g.budget) = (Leaf::Clean, 0, 0, i64::MAX);
            // vary the surroundings: alone, or among siblings and repetitions
            if g.rng.chance(1, 4) { g.popt = 12; g.pvec = 30; g.budget = 40; }
            STYLE.set(g.rng.below(4));
            let m = base(&mut g, r.r, &route);
            let p: Path = route.iter().map(|i| (*i, 0)).collect();
            let mut list: Vec<String> = vec![];
            let one = |n: &Node, medium: char| -> Result<Box<dyn Obj>, String> {
                let mut s = String::new();
                if medium == 'j' { json(d, r.r, n, &mut s); guard(|| (root.from_json)(&s)).unwrap_or_else(Err) }
                else { xml(d, name, r.r, n, &mut s); guard(|| (root.from_xml)(&s)).unwrap_or_else(Err) }
            };
            for (i, f) in d.ty(t).iter().enumerate() {
                let ops = faults_of(d, f);
                for op in &ops {
                    let n = apply(&m, &p, i, op);
                    for c in media(f, op, false).chars() {
                        let ok = one(&n, c).is_ok();
                        list.push(format!("[{},\"{c}\",{ok}]", opjs(&p, i, op)));
                    }
                }
            }
            // a mandatory field under another spelling of its name is a missing one; the element under that name is unknown
            for (i, f) in d.ty(t).iter().enumerate() {
                if f.o == 1 { continue }
                let spot = { let mut x = &m; for (a, b) in &p { let Node::S(fs) = x else { unreachable!() }; x = &fs[*a][*b]; } x as *const Node as usize };
                for a in aliases(d, t, f) {
                    for c in if f.x == "$value" { "j" } else { "jx" }.chars() {
                        if c == 'x' && (a.starts_with('@') != f.x.starts_with('@') || a.starts_with('$')) { continue }
                        ALIAS.set(Some((spot, i, a.clone())));
                        let ok = one(&m, c).is_ok();
                        ALIAS.set(None);
                        list.push(format!("[{},\"{c}\",{ok}]", opjs(&p, i, &Op::Drop)));
                    }
                }
            }
            // every text tried as a code, in every code field: those accepted
            let all = tried(d);
            let mut codes: Vec<String> = vec![];
            for (i, f) in d.ty(t).iter().enumerate() {
                if f.k != "e" { continue }
                let media: &[char] = if thorough || (t + i) % 4 == 0 { &['j', 'x'] } else { &['j'] };
                // as little as possible around it
                let (save, saveb) = (g.popt, g.budget); (g.popt, g.budget) = (0, 0);
                let small = least(&mut g, r.r, &route);
                (g.popt, g.budget) = (save, saveb);
                for c in media {
                    let acc: Vec<String> = (0..all.len()).filter(|k| { let n = apply(&small, &p, i, &Op::Set(-1000 - *k as i64)); one(&n, *c).is_ok() }).map(|k| jstr(&all[k])).collect();
                    codes.push(format!("[[{}],{},{},[{}]]", p.iter().map(|(i, k)| format!("[{},{}]", i + 1, k + 1)).collect::<Vec<_>>().join(","), i + 1, all.len(), acc.join(",")));
                }
                b.sites += all.len() * media.len();
            }
            let read = |c: char| match one(&m, c) { Ok(o) => jres(d, guard(|| o.json())), Err(e) => format!("[\"!\",{}]", jstr(&e)) };
            let (jb, xb) = (read('j'), read('x'));
            let cost = m.leaves() + list.len() * 3;
            b.leaves += m.leaves(); b.sites += list.len();
            b.lines.push((format!("{{\"a\":\"Faults\",\"root\":{},\"r\":{},\"t\":{t},\"codes\":[{}],\"list\":[{}],\"jb\":{jb},\"xb\":{xb},\"kept\":{},\"m\":{},\"x\":{}}}", jstr(&r.m), r.r, codes.join(","), list.join(","), kept(), m.js(), locals_js()), cost));
        }
        // whole messages, read as they are and with one fault anywhere
        g.begin(r.r);
        for k in 0..if thorough { 150 } else { 12 } {
            locals_reset();
            tune(&mut g, k);
            STYLE.set(k % 4);
            let m = g.build(r.r);
            let mut list = vec![];
            let mut spots = vec![]; all_spots(d, r.r, &m, &mut vec![], &mut spots);
            for _ in 0..if k == 0 { 0 } else { 6 } {
                let (p, t, i) = spots[g.rng.below(spots.len())].clone();
                let f = &d.ty(t)[i];
                let ops = faults_of(d, f);
                let op = &ops[if g.rng.chance(1, 2) { g.rng.below(2) } else { g.rng.below(ops.len()) }];
                let n = apply(&m, &p, i, op);
                let ms = media(f, op, true);
                let c = ms.chars().nth(g.rng.below(ms.len())).unwrap();
                let mut s = String::new();
                let ok = if c == 'j' { json(d, r.r, &n, &mut s); guard(|| (root.from_json)(&s).is_ok()) } else { xml(d, name, r.r, &n, &mut s); guard(|| (root.from_xml)(&s).is_ok()) };
                list.push(format!("[{},\"{c}\",{}]", opjs(&p, i, op), ok.unwrap_or(false)));
            }
            let mut s = String::new(); json(d, r.r, &m, &mut s);
            let jb = match guard(|| (root.from_json)(&s)).unwrap_or_else(Err) { Ok(o) => jres(d, guard(|| o.json())), Err(e) => format!("[\"!\",{}]", jstr(&e)) };
            let mut s = String::new(); xml(d, name, r.r, &m, &mut s);
            let xb = match guard(|| (root.from_xml)(&s)).unwrap_or_else(Err) { Ok(o) => jres(d, guard(|| o.json())), Err(e) => format!("[\"!\",{}]", jstr(&e)) };
            b.leaves += m.leaves(); b.sites += list.len();
            b.lines.push((format!("{{\"a\":\"Faults\",\"root\":{},\"r\":{},\"t\":0,\"codes\":[],\"list\":[{}],\"jb\":{jb},\"xb\":{xb},\"kept\":{},\"m\":{},\"x\":{}}}", jstr(&r.m), r.r, list.join(","), kept(), m.js(), locals_js()), m.leaves() * (2 + list.len())));
        }
        // complete messages: a fault in the header or in the document
        if !r.mt.is_empty() {
            let ht = d.root(HDR).r;
            let mut gh = Gen::new(d, seed, &format!("c07h{}", r.m), Leaf::Clean); gh.begin(ht);
            for k in 1..if thorough { 120 } else { 14 } {
                locals_reset();
                tune(&mut g, k); tune(&mut gh, k);
                g.budget = 40; gh.budget = 30;
                STYLE.set((k + r.r) % 6);
                let m = Mx { rt: d.root_ix(&r.m), h: header(&mut gh, &r.full), d: g.build(r.r), ns: namespaces(&mut g) };
                let part = ["h", "d", "none"][k % 3];
                let (pt, pn) = if part == "h" { (ht, &m.h) } else { (r.r, &m.d) };
                let mut spots = vec![]; all_spots(d, pt, pn, &mut vec![], &mut spots);
                let mut list = vec![];
                for _ in 0..if part == "none" { 0 } else { 5 } {
                    let (p, t, i) = spots[g.rng.below(spots.len())].clone();
                    let f = &d.ty(t)[i];
                    let ops = faults_of(d, f);
                    let op = &ops[if g.rng.chance(1, 2) { g.rng.below(2) } else { g.rng.below(ops.len()) }];
                    let n = apply(pn, &p, i, op);
                    let bad = if part == "h" { Mx { h: n, ..m.clone() } } else { Mx { d: n, ..m.clone() } };
                    for c in media(f, op, true).chars() {
                        let ok = guard(|| if c == 'j' { MxMessage::from_json(&bad.json(d)).is_ok() } else { MxMessage::from_xml(&bad.xml(d)).is_ok() });
                        list.push(format!("[{},\"{c}\",{}]", opjs(&p, i, op), ok.unwrap_or(false)));
                    }
                }
                let rd = |x: Result<Result<MxMessage, String>, String>| match x.unwrap_or_else(Err) { Ok(o) => jres(d, guard(|| o.to_json().map_err(|e| e.to_string()))), Err(e) => format!("[\"!\",{}]", jstr(&e)) };
                let jb = rd(guard(|| MxMessage::from_json(&m.json(d)).map_err(|e| e.to_string())));
                let xb = rd(guard(|| MxMessage::from_xml(&m.xml(d)).map_err(|e| e.to_string())));
                b.leaves += m.leaves(); b.sites += list.len();
                b.lines.push((format!("{{\"a\":\"MxFaults\",\"root\":{},{},\"part\":\"{part}\",\"list\":[{}],\"jb\":{jb},\"xb\":{xb},\"kept\":{},\"x\":{}}}", jstr(&r.m), m.js(d), list.join(","), kept(), locals_js()), m.leaves() * (2 + list.len())));
            }
        }
        b
    });
    let (mut n, mut faults) = (0, 0);
    for b in &all { n += b.lines.len(); faults += b.sites }
    eprintln!("{n} bases {faults} faults");
    finish(all, dir, 8);
}
/// every present field of a message: path to its structure, type, field
pub fn all_spots(d: &Dict, t: usize, n: &Node, p: &mut Path, out: &mut Vec<(Path, usize, usize)>) {
    let Node::S(fs) = n else { return };
    for (i, inst) in fs.iter().enumerate() {
        if inst.is_empty() { continue }
        out.push((p.clone(), t, i));
        if d.ty(t)[i].k == "t" { for (k, x) in inst.iter().enumerate() { p.push((i, k)); all_spots(d, d.ty(t)[i].r, x, p, out); p.pop(); } }
    }
}
