//! C03: the single rule checks.
use crate::dict::*; use crate::gen_::Rng; use crate::ops::guard; use crate::out::*; use crate::tree::jstr;
use mx_message::error::ValidationError;
use mx_message::parse_result::{ErrorCollector, ParserConfig};
use mx_message::validation::helpers as h;
use serde_json::Value;
use std::collections::BTreeSet;
fn cps(s: &str) -> String { let v: Vec<String> = s.chars().map(|c| (c as u32).to_string()).collect(); format!("[{}]", v.join(",")) }
struct Ctx<'a> { rng: &'a mut Rng, k: usize, names: &'a [String] }
impl Ctx<'_> {
    /// run one check against a collector with some history; "ret", "errs" and flags as JSON
    fn call(&mut self, f: impl Fn(&ParserConfig, &mut ErrorCollector, &str, &str) -> bool) -> String {
        self.k += 1;
        let pre = [0, 0, 0, 1, 3][self.rng.below(5)];
        let precrit = pre > 0 && self.rng.chance(1, 2);
        let cfg = ParserConfig { fail_fast: self.rng.chance(1, 3), validate_optional_fields: self.rng.chance(1, 2), collect_all_errors: self.rng.chance(1, 2) };
        // any element name of the schemas, on any path
        let mut field = self.names[self.rng.below(self.names.len())].clone();
        if self.rng.chance(1, 30) { field = ["", "é", "a b", "X"][self.rng.below(4)].into() }
        let mut path: String = (0..[0, 1, 3, 12][self.rng.below(4)]).map(|_| format!("{}.", self.names[self.rng.below(self.names.len())])).collect();
        path.push_str(&field);
        let (field, path) = (field.as_str(), path.as_str());
        let mut c = ErrorCollector::new();
        for i in 0..pre { let e = ValidationError::new(1, "before".into()).with_field("F".into()).with_path("P".into()); if precrit && i == 0 { c.add_critical_error(e) } else { c.add_error(e) } }
        let head = format!("\"pre\":{pre},\"precrit\":{precrit},\"ff\":{},\"field\":{},\"path\":{}", cfg.fail_fast, jstr(field), jstr(path));
        match guard(|| f(&cfg, &mut c, field, path)) {
            Err(p) => format!("{head},\"ret\":false,\"crit\":false,\"errs\":[[0,{},\"panic\"]]", jstr(&p)),
            Ok(ret) => {
                let crit = c.has_critical_errors();
                let es = c.errors();
                let kept = es.len() >= pre && es[..pre].iter().all(|e| e.code == 1 && e.message == "before");
                let added: Vec<String> = es.iter().skip(if kept { pre } else { 0 }).map(|e| format!("[{},{},{}]", e.code, jstr(e.field.as_deref().unwrap_or("-")), jstr(e.path.as_deref().unwrap_or("-")))).collect();
                format!("{head},\"ret\":{ret},\"crit\":{crit},\"errs\":[{}]", added.join(","))
            }
        }
    }
}
fn sets(a: &Value, out: &mut BTreeSet<u32>) {
    match a["t"].as_str().unwrap() {
        "set" => { let s: Vec<u32> = a["s"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect(); for (i, c) in s.iter().enumerate() {
            // borders of every range, inside and outside
            if i == 0 || s[i - 1] + 1 != *c { out.insert(*c); out.insert(c - 1); }
            if i + 1 == s.len() || s[i + 1] != c + 1 { out.insert(*c); out.insert(c + 1); } } }
        "notnl" => { out.insert(10); }
        "rep" => sets(&a["a"], out),
        _ => for x in a["a"].as_array().unwrap() { sets(x, out) },
    }
}
pub fn c03(d: &Dict, seed: u64, thorough: bool, dir: &str, chunks: usize) {
    let mut out = Chunks::new(dir, "t", chunks);
    let mut rng = Rng::new(seed, "c03");
    let mut distinct = BTreeSet::new();
    let names: Vec<String> = d.types.iter().flatten().map(|f| f.x.clone()).collect::<BTreeSet<_>>().into_iter().collect();
    let exotic = [' ', '\n', '\t', 'é', '日', '😀', '\u{a0}', '\u{2003}', '\u{85}', '\u{301}', '<', '~', 'a', 'Z', '0', '\u{200b}', '\u{feff}'];
    // lengths
    let bounds: [Option<usize>; 13] = [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(16), Some(34), Some(35), Some(70), Some(140), Some(350), Some(2048)];
    for min in bounds { for max in bounds {
        let mut lens: BTreeSet<usize> = (0..4).collect();
        for b in [min, max].into_iter().flatten() { if b < 400 || thorough { for x in [b.saturating_sub(1), b, b + 1] { lens.insert(x); } } }
        for n in lens { for kind in 0..4 {
            if n > 300 && kind > 1 { continue }
            let s: String = (0..n).map(|i| match kind { 0 => 'x', 1 => exotic[rng.below(exotic.len())], 2 => '😀', _ => if i == 0 || i + 1 == n { ' ' } else { 'é' } }).collect();
            let mut c = Ctx { rng: &mut rng, k: 0, names: &names };
            let r = c.call(|cfg, col, f, p| h::validate_length(&s, f, min, max, p, cfg, col));
            distinct.insert((min, max, s.clone()));
            let js = |b: Option<usize>| b.map_or(-1, |x| x as i64);
            out.put(&format!("{{\"a\":\"Length\",\"v\":{},\"min\":{},\"max\":{},{r}}}", cps(&s), js(min), js(max)), 1 + n / 8);
        } }
    } }
    // texts of things that look like less than they are: several characters each, where a reader, an editor or a screen shows one or none
    let mut parts: Vec<String> = ["\r\n", "\n\r", "e\u{301}", "a\u{308}\u{304}", "\u{1F468}\u{200d}\u{1F469}\u{200d}\u{1F467}", "\u{1F1E9}\u{1F1EA}", "\u{1112}\u{1161}\u{11ab}", "\u{915}\u{94d}\u{937}", "&amp;", "&lt;", "&#65;", "&#x41;", "\\n", "\\u00e9", "\\\"", "%20", "+", "<b></b>", "<![CDATA[]]>", "<!---->", "  ", " \u{a0}", "\t", "\n", "\r", "\u{feff}x", "\u{200b}", "\u{ad}a", "\u{fb01}", "\u{df}", "\u{130}", "\u{1F600}\u{fe0f}", "\u{2764}\u{fe0f}", "''", "\"\"", "{{x}}", "${x}", "..", "//", "--", "??", "a,b", "1,000", "\u{202e}a\u{202c}", "\u{10ffff}", "\u{fffd}", "\u{fffe}", "\u{e000}", "\u{2028}", "\u{3000}", "\u{ff21}"].map(String::from).to_vec();
    parts.extend((0u32..32).chain(127..160).map(|c| char::from_u32(c).unwrap().to_string()));
    for part in &parts { for (i, (min, max)) in [(None, Some(4)), (Some(1), Some(35)), (Some(5), None), (Some(3), Some(16)), (Some(1), Some(1)), (Some(70), Some(140))].into_iter().enumerate() {
        let mut lens = BTreeSet::new();
        for b in [min, max].into_iter().flatten() { for x in [b - 1, b, b + 1, b + part.chars().count() - 1, b + 2, b * 2] { lens.insert(x); } }
        for n in lens { for place in 0..4 {
            if n > 36 && (place != 1 || i % 2 == 0) { continue }
            let k = part.chars().count().min(n);
            let fill = |n: usize| -> String { std::iter::repeat_n('x', n).collect() };
            let s: String = match place { 0 => part.chars().cycle().take(n).collect(), 1 => fill(n - k) + &part.chars().take(k).collect::<String>(), 2 => part.chars().take(k).collect::<String>() + &fill(n - k), _ => { let a = (n - k) / 2; fill(a) + &part.chars().take(k).collect::<String>() + &fill(n - k - a) } };
            if !distinct.insert((min, max, s.clone())) { continue }
            let mut c = Ctx { rng: &mut rng, k: 0, names: &names };
            let r = c.call(|cfg, col, f, p| h::validate_length(&s, f, min, max, p, cfg, col));
            let js = |b: Option<usize>| b.map_or(-1, |x| x as i64);
            out.put(&format!("{{\"a\":\"Length\",\"v\":{},\"min\":{},\"max\":{},{r}}}", cps(&s), js(min), js(max)), 1 + n / 8);
        } }
    } }
    // texts that are very long, given by the number of their characters
    let top = if thorough { 20_000_000 } else { 1_200_000 };
    for n in [255, 256, 257, 999, 1000, 1001, 4095, 4096, 4097, 10_000, 32_767, 32_768, 65_535, 65_536, 65_537, 65_571, 70_000, 131_072, 131_107, 1_000_000, top] {
        for (min, max) in [(None, Some(35)), (Some(1), Some(140)), (Some(1), Some(n)), (Some(1), Some(n - 1)), (Some(n), None), (Some(n + 1), None), (Some(n + 1), Some(n - 1)), (None, None), (Some(n), Some(n)), (Some(0), Some(65_535)), (Some(65_536), Some(2_000_000))] {
            for ch in ['x', '\u{e9}', '\u{1F600}', ' '] {
                if n > 200_000 && ch != 'x' && !thorough { continue }
                let s = ch.to_string().repeat(n);
                let mut c = Ctx { rng: &mut rng, k: 0, names: &names };
                let r = c.call(|cfg, col, f, p| h::validate_length(&s, f, min, max, p, cfg, col));
                let js = |b: Option<usize>| b.map_or(-1, |x| x as i64);
                out.put(&format!("{{\"a\":\"LongLength\",\"cp\":{},\"n\":{n},\"min\":{},\"max\":{},{r}}}", ch as u32, js(min), js(max)), 1);
            }
        }
    }
    let lengths = distinct.len();
    // patterns
    let mut seen: BTreeSet<(usize, String)> = BTreeSet::new();
    for (pi, p) in d.pats.iter().enumerate() {
        let mut al = BTreeSet::new();
        sets(&p.ast, &mut al);
        let mut al: Vec<char> = al.into_iter().filter_map(char::from_u32).collect();
        al.extend([' ', '\n', 'é']);
        let mut cases: BTreeSet<String> = BTreeSet::new();
        // all short strings over the class borders (as many as affordable)
        let cap = if thorough { 20000 } else { 500 };
        let mut layer = vec![String::new()];
        cases.insert(String::new());
        loop {
            if layer.len() * al.len() > cap { break }
            layer = layer.iter().flat_map(|s| al.iter().map(move |c| format!("{s}{c}"))).collect();
            cases.extend(layer.iter().cloned());
            if layer[0].chars().count() >= 4 { break }
        }
        // values near those the schemas' value lists hold: 1..3 random edits
        let mut seeds: Vec<&str> = d.classes.iter().filter(|c| c.pat == pi + 1).flat_map(|c| c.w.iter().map(|w| d.wit[*w - 1].as_str())).filter(|s| s.chars().count() < 80).collect();
        seeds.extend(["abab", "aab", "ababc", "bc", "abc", "x", "ccx", "ab.12", ".00", "xxyyy", "yyy", "^a$"]);
        for k in 0..(if thorough { 6000 } else { 350 }) {
            let mut s: Vec<char> = seeds[k % seeds.len()].chars().collect();
            for _ in 0..rng.below(4) {
                let c = if rng.chance(3, 4) { al[rng.below(al.len())] } else { exotic[rng.below(exotic.len())] };
                let i = rng.below(s.len() + 1);
                match rng.below(5) { 0 => s.insert(i, c), 1 if i < s.len() => { s.remove(i); } 2 if i < s.len() => s[i] = c, 3 => s.insert(0, exotic[rng.below(9)]), _ => s.push(exotic[rng.below(9)]) }
            }
            cases.insert(s.into_iter().collect());
        }
        // long values: a sample of the pattern many times over, whole, cut, and with a foreign character at either end
        for (k, n) in [(0, 150), (1, 300), (2, 500), (3, 700)] {
            let b = seeds[(k * 7) % seeds.len()].trim();
            if b.is_empty() { continue }
            let long: String = b.chars().cycle().take(n).collect();
            cases.extend([format!("{long}~"), format!("\u{e9}{long}"), format!("  {long}\n"), long]);
        }
        for (k, part) in parts.iter().enumerate() {
            let b = seeds[(k * 5 + pi) % seeds.len()];
            let h = b.char_indices().nth(b.chars().count() / 2).map_or(0, |x| x.0);
            cases.extend([format!("{b}{part}"), format!("{part}{b}"), format!("{}{part}{}", &b[..h], &b[h..])]);
        }
        for s in cases {
            let mut c = Ctx { rng: &mut rng, k: 0, names: &names };
            let r = c.call(|cfg, col, f, path| h::validate_pattern(&s, f, &p.src, path, cfg, col));
            out.put(&format!("{{\"a\":\"Pattern\",\"v\":{},\"pat\":{},{r}}}", cps(&s), pi + 1), 1 + s.len() / 4);
            seen.insert((pi, s));
        }
    }
    for present in [true, false] { for _ in 0..60 {
        let mut c = Ctx { rng: &mut rng, k: 0, names: &names };
        let v: Option<String> = present.then(|| "".to_string());
        let r = c.call(|cfg, col, f, p| h::validate_required(&v, f, p, cfg, col));
        out.put(&format!("{{\"a\":\"Required\",\"present\":{present},{r}}}"), 1);
    } }
    for parent in ["", "A", "A.B", "Document.GrpHdr", "é", "."] { for name in ["X", "", "MsgId", "@Ccy", "日本"] {
        let o = guard(|| h::child_path(parent, name)).unwrap_or("PANIC".into());
        out.put(&format!("{{\"a\":\"Child\",\"parent\":{},\"name\":{},\"out\":{}}}", jstr(parent), jstr(name), jstr(&o)), 1);
    } }
    println!("{{\"calls\":{},\"distinct_length_cases\":{lengths},\"distinct_pattern_cases\":{}}}", out.lines, seen.len());
}
