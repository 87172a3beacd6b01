//! C01 / C02: field rules over whole messages.
use crate::dict::*; use crate::gen_::*; use crate::ops::*; use crate::out::*; use crate::tree::*;
use mx_message::parse_result::{ErrorCollector, ParserConfig};
use std::collections::BTreeMap;
pub fn run_cfg(o: &dyn Obj, path: &str, cfg: &ParserConfig) -> String {
    let mut c = ErrorCollector::new();
    match guard(|| { o.check(path, cfg, &mut c) }) {
        Err(p) => format!("\"crit\":false,\"errs\":[[0,{},\"panic\",1]]", jstr(&p)),
        Ok(()) => {
            let crit = c.has_critical_errors();
            let mut m: BTreeMap<(u32, String, String), usize> = BTreeMap::new();
            for e in c.errors() { *m.entry((e.code, e.field.unwrap_or("-".into()), e.path.unwrap_or("-".into()))).or_insert(0) += 1; }
            let v: Vec<String> = m.iter().map(|((a, b, c), n)| format!("[{a},{},{},{n}]", jstr(b), jstr(c))).collect();
            format!("\"crit\":{crit},\"errs\":[{}]", v.join(","))
        }
    }
}
pub fn cfgjs(c: &ParserConfig) -> String { format!("{{\"ff\":{},\"opt\":{}}}", c.fail_fast, c.validate_optional_fields) }
/// run f for every root on 8 threads; results in root order
pub fn per_root<T: Send>(d: &Dict, f: impl Fn(&RootD) -> T + Sync) -> Vec<T> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Vec<std::sync::Mutex<Option<T>>> = d.roots.iter().map(|_| std::sync::Mutex::new(None)).collect();
    // heaviest modules first
    let mut order: Vec<usize> = (0..d.roots.len()).collect();
    let size: Vec<usize> = d.roots.iter().map(|r| { let mut g = Gen::new(d, 1, "", Leaf::Cover); g.begin(r.r); g.sites }).collect();
    order.sort_by_key(|i| std::cmp::Reverse(size[*i]));
    std::thread::scope(|s| {
        for _ in 0..8 {
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= order.len() { break }
                let i = order[k];
                *out[i].lock().unwrap() = Some(f(&d.roots[i]));
            }).unwrap();
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
}
#[derive(Default)]
pub struct Batch { pub lines: Vec<(String, usize)>, pub leaves: usize, pub sites: usize, pub missed: usize }
pub fn c01(d: &Dict, seed: u64, thorough: bool, dir: &str, chunks: usize) {
    let all = per_root(d, |r| {
        let root = root(&r.m);
        let mut b = Batch::default();
        let mut g = Gen::new(d, seed, &r.m, Leaf::Cover);
        g.begin(r.r);
        b.sites = g.sites;
        let (mut k, mut tail) = (0, 0);
        let extra = if thorough { 60 } else { 6 };
        let put = |b: &mut Batch, n: &Node, k: usize| {
            let mut js = String::new();
            json(d, r.r, n, &mut js);
            let long = "Envelope.Related.Message.".repeat([2, 9, 11, 44][k / 29 % 4]);
            let path = if k % 29 == 28 { &long[..long.len() - 1] } else { ["", "Document", "Envelope.Document"][k % 3] };
            let res = match guard(|| (root.from_json)(&js)) {
                Ok(Ok(o)) => run_cfg(&*o, path, &ParserConfig::default()),
                Ok(Err(e)) => format!("\"crit\":false,\"errs\":[[0,{},\"rejected\",1]]", jstr(&e)),
                Err(e) => format!("\"crit\":false,\"errs\":[[0,{},\"panic\",1]]", jstr(&e)),
            };
            let l = n.leaves(); b.leaves += l;
            b.lines.push((format!("{{\"a\":\"Validate\",\"root\":{},\"r\":{},\"p\":{},\"cfg\":{{\"ff\":false,\"opt\":true}},{res},\"m\":{}}}", jstr(&r.m), r.r, jstr(path), n.js()), l));
        };
        while tail < extra {
            if g.uncovered(r.r) == 0 || k > 3000 { tail += 1; g.leaf = Leaf::Any; g.bigvec = if tail % 3 == 0 { 13 } else { 0 }; g.popt = [50, 20, 80][tail % 3]; g.budget = 250; }
            else { g.popt = if k == 0 { 100 } else { 4 }; g.budget = 400; if k == 0 { g.budget = i64::MAX; } }
            let n = g.build(r.r);
            put(&mut b, &n, k);
            k += 1;
        }
        b.missed = g.uncovered(r.r);
        // every text of the domain list in every text field
        g.leaf = Leaf::Cover; g.dom = true; g.bigvec = 0;
        g.begin(r.r);
        for k in 0..4000 {
            if g.uncovered(r.r) == 0 { break }
            g.popt = if k == 0 { 100 } else { 4 }; g.budget = if k == 0 { i64::MAX } else { 400 };
            let n = g.build(r.r);
            put(&mut b, &n, k);
        }
        b.missed += g.uncovered(r.r);
        g.dom = false;
        // every pair of fields of a structure in every pair of states
        let mut pairs = crate::pairs::Pairs { d, rng: Rng::new(seed, &format!("pairs{}", r.m)), short: !thorough };
        for (t, route) in crate::faults::routes(d, r.r) {
            (g.leaf, g.popt, g.pvec, g.bigvec, g.budget) = (Leaf::Clean, 0, 0, 0, 0);
            for (k, x) in pairs.instances(t).into_iter().enumerate() {
                let n = crate::faults::place(&mut g, r.r, &route, x);
                put(&mut b, &n, k);
            }
        }
        // every repeating field with many instances, faults late among them
        for (t, route) in crate::faults::routes(d, r.r) {
            for (i, f) in d.ty(t).iter().enumerate() {
                if f.v == 0 || f.k == "e" { continue }
                for go in 0..if thorough { 24 } else { 3 } {
                    (g.leaf, g.popt, g.pvec, g.bigvec, g.budget) = (Leaf::Clean, 0, 0, 0, i64::MAX);
                    let mut n = crate::faults::base(&mut g, r.r, &route);
                    let len = if go == 0 { 1030 } else if go == 2 && thorough { 4100 } else { [6, 11, 17, 26, 45, 70, 300][g.rng.below(if thorough { 7 } else { 6 })] };
                    let bad = [len - 1, g.rng.below(len), len - 1 - g.rng.below(4)];
                    let mut v = vec![];
                    for k in 0..len {
                        (g.leaf, g.popt, g.budget) = if bad.contains(&k) { (Leaf::Any, 80, 15) } else { (Leaf::Clean, 0, 0) };
                        v.push(if f.k == "t" { g.build(f.r) } else { g.leaf(t, i) });
                        // a faulty one twice in a row
                        if go == 1 && bad.contains(&k) { let x = v.last().unwrap().clone(); v.push(x) }
                    }
                    let p: crate::faults::Path = route.iter().map(|i| (*i, 0)).collect();
                    // for text every value of the class comes late once
                    if f.k == "s" { let c = d.classes[f.r - 1].w.len() as i64; let s = g.rng.below(c as usize) as i64; for k in 0..c { v.push(Node::L(1 + (k + s) % c)) } }
                    crate::faults::at(&mut n, &p)[i] = v;
                    put(&mut b, &n, i);
                }
            }
        }
        b
    });
    finish(all, dir, chunks);
}
pub fn finish(all: Vec<Batch>, dir: &str, chunks: usize) {
    let mut out = Chunks::new(dir, "t", chunks);
    let mut s = Batch::default();
    for b in all { s.leaves += b.leaves; s.sites += b.sites; s.missed += b.missed; for (l, c) in b.lines { out.put(&l, c) } }
    println!("{{\"messages\":{},\"leaves\":{},\"text_fields\":{},\"uncovered\":{}}}", out.lines, s.leaves, s.sites, s.missed);
}
/// C02: every configuration on the same message, plus sessions that reuse a collector
pub fn c02(d: &Dict, seed: u64, thorough: bool, dir: &str, chunks: usize) {
    let cfgs: Vec<ParserConfig> = (0..8).map(|b| ParserConfig { fail_fast: b & 1 != 0, validate_optional_fields: b & 2 != 0, collect_all_errors: b & 4 != 0 })
        .chain([ParserConfig::default(), ParserConfig::fail_fast(), ParserConfig::lenient()]).collect();
    let names = ["default", "fail_fast", "lenient"];
    let all = per_root(d, |r| {
        let root = root(&r.m);
        let mut b = Batch::default();
        let mut g = Gen::new(d, seed ^ 0xC02, &r.m, Leaf::Cover);
        g.begin(r.r);
        b.sites = g.sites;
        let n_msgs = if thorough { 200 } else { 26 };
        let mut prev: Vec<(Node, Box<dyn Obj>)> = vec![];
        for k in 0..n_msgs {
            g.bigvec = [0, 130, 0, 40, 0, 0, 9][k % 7];
            match k % 4 {
                // the first covers every component once; then few errors, no errors, many errors
                0 => { g.leaf = Leaf::Cover; g.popt = if k == 0 { 100 } else { 40 }; g.budget = if k == 0 { i64::MAX } else { 200 }; }
                1 => { g.leaf = Leaf::Clean; g.popt = 30; g.budget = 120; }
                2 => { g.leaf = Leaf::Clean; g.ok = |_| false; g.popt = 60; g.budget = 120; }
                _ => { g.leaf = Leaf::Any; g.popt = [15, 50, 85][k % 3]; g.budget = 150; }
            }
            let n = g.build(r.r);
            g.ok = |_| true;
            let mut js = String::new();
            json(d, r.r, &n, &mut js);
            let path = ["Document", ""][k % 2];
            let head = format!("\"root\":{},\"r\":{},\"p\":{}", jstr(&r.m), r.r, jstr(path));
            let l = n.leaves(); b.leaves += l;
            match guard(|| (root.from_json)(&js)) {
                Ok(Ok(o)) => {
                    let runs: Vec<String> = cfgs.iter().enumerate().map(|(i, c)| {
                        // the presets must behave as the switches they stand for
                        let spec = match i { 8 => ParserConfig { fail_fast: false, validate_optional_fields: true, collect_all_errors: true },
                            9 => ParserConfig { fail_fast: true, validate_optional_fields: true, collect_all_errors: false },
                            10 => ParserConfig { fail_fast: false, validate_optional_fields: false, collect_all_errors: false }, _ => c.clone() };
                        format!("{{\"cfg\":{},\"preset\":{},{}}}", cfgjs(&spec), jstr(if i >= 8 { names[i - 8] } else { "" }), run_cfg(&*o, path, c))
                    }).collect();
                    b.lines.push((format!("{{\"a\":\"Modes\",{head},\"runs\":[{}],\"m\":{}}}", runs.join(","), n.js()), 2 * l));
                    prev.push((n, o));
                    if prev.len() == 3 {
                        let cfg = ParserConfig { fail_fast: false, validate_optional_fields: k % 2 == 0, collect_all_errors: k % 3 == 0 };
                        let mut c = ErrorCollector::new();
                        let ok = guard(|| for (_, o) in &prev { o.check("X.Y", &cfg, &mut c) });
                        let mut m: BTreeMap<(u32, String, String), usize> = BTreeMap::new();
                        let crit = c.has_critical_errors();
                        for e in c.errors() { *m.entry((e.code, e.field.unwrap_or_default(), e.path.unwrap_or_default())).or_insert(0) += 1; }
                        if let Err(p) = ok { m.insert((0, p, "panic".into()), 1); }
                        let v: Vec<String> = m.iter().map(|((a, b, c), n)| format!("[{a},{},{},{n}]", jstr(b), jstr(c))).collect();
                        let ms: Vec<String> = prev.iter().map(|(n, _)| format!("{{\"r\":{},\"p\":\"X.Y\",\"m\":{}}}", r.r, n.js())).collect();
                        let cost = prev.iter().map(|(n, _)| n.leaves()).sum();
                        b.lines.push((format!("{{\"a\":\"Session\",\"root\":{},\"cfg\":{},\"ms\":[{}],\"crit\":{crit},\"errs\":[{}]}}", jstr(&r.m), cfgjs(&cfg), ms.join(","), v.join(",")), cost));
                        prev.clear();
                    }
                }
                Ok(Err(e)) | Err(e) => b.lines.push((format!("{{\"a\":\"Modes\",{head},\"runs\":[{{\"cfg\":{{\"ff\":false,\"opt\":true}},\"crit\":false,\"errs\":[[0,{},\"rejected or panic\",1]]}}],\"m\":{}}}", jstr(&e), n.js()), l)),
            }
        }
        b.missed = 0;
        // every pair of fields of a structure in every pair of states, under some of the configurations
        let mut pairs = crate::pairs::Pairs { d, rng: Rng::new(seed ^ 0xC02, &format!("pairs{}", r.m)), short: true };
        let mut turn = 0;
        for (t, route) in crate::faults::routes(d, r.r) {
            (g.leaf, g.popt, g.pvec, g.bigvec, g.budget) = (Leaf::Clean, 0, 0, 0, 0);
            for x in pairs.instances(t) {
                let n = crate::faults::place(&mut g, r.r, &route, x);
                let mut js = String::new();
                json(d, r.r, &n, &mut js);
                turn += 1;
                let runs: Vec<String> = match guard(|| (root.from_json)(&js)) {
                    Ok(Ok(o)) => (if thorough { vec![0, 1, 2, 3, 4, 5, 6, 7] } else { vec![[0, 4, 2][turn % 3], [1, 5, 3, 7][turn / 3 % 4]] }).into_iter()
                        .map(|i| format!("{{\"cfg\":{},\"preset\":\"\",{}}}", cfgjs(&cfgs[i]), run_cfg(&*o, "", &cfgs[i]))).collect(),
                    Ok(Err(e)) | Err(e) => vec![format!("{{\"cfg\":{{\"ff\":false,\"opt\":true}},\"crit\":false,\"errs\":[[0,{},\"rejected or panic\",1]]}}", jstr(&e))],
                };
                let l = n.leaves(); b.leaves += l;
                b.lines.push((format!("{{\"a\":\"Modes\",\"root\":{},\"r\":{},\"p\":\"\",\"runs\":[{}],\"m\":{}}}", jstr(&r.m), r.r, runs.join(","), n.js()), 2 * l));
            }
        }
        b
    });
    finish(all, dir, chunks);
}
