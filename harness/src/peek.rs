//! C11: every way of asking for the type of a message.
use crate::dict::*; use crate::frame::*; use crate::gen_::*; use crate::ops::*; use crate::out::*; use crate::pipe; use crate::tree::*; use crate::wire::*;
use mx_message::MxMessage;
use mx_message::mx_envelope as env;
use serde_json::{Value, json};
fn ans<E: ToString>(r: Result<Result<String, E>, String>) -> String {
    match r { Ok(Ok(s)) => format!("[\"ok\",{}]", jstr(&s)), Ok(Err(e)) => format!("[\"!\",{}]", jstr(&e.to_string())), Err(e) => format!("[\"panic\",{}]", jstr(&e)) }
}
/// carriage returns are written as references, which are not stripped
fn trim(s: &str) -> &str { if kept() { s } else { s.trim_matches([' ', '\t', '\n']) } }
pub fn c11(d: &Dict, seed: u64, thorough: bool, dir: &str, work: &str) {
    let mut out = Chunks::new(dir, "t", 8);
    let mut p = Pool::new(d, seed, "c11");
    let mut g = Rng::new(seed, "c11");
    let kinds = lines(work, "peek");
    let ht = d.root(HDR).r;
    let fi = |n: &str| d.ty(ht).iter().position(|f| f.x == n).unwrap();
    let (ii, ri) = (fi("MsgDefIdr"), fi("Rltd"));
    let rt_ = d.ty(ht)[ri].r;
    let mut gr = Gen::new(d, seed, "c11r", Leaf::Clean); gr.popt = 5; gr.begin(rt_);
    for _ in 0..if thorough { 40 } else { 2 } {
        for k in &kinds {
            locals_reset();
            let mut m = p.next(true);
            let (short, full) = { let r = m.root(d); (r.mt.clone(), r.full.clone()) };
            let other = &d.roots[registered(d)[g.below(25)] - 1];
            let s = |x: &str| k[x].as_str().unwrap().to_string();
            let idr = match s("own").as_str() {
                "absent" => None,
                "full" => Some(full.clone()), "short" => Some(short.clone()), "other" => Some(if g.chance(1, 2) { other.full.clone() } else { other.mt.clone() }),
                "version" => Some([format!("{}9", &full[..full.len() - 1]), format!("{short}.001"), format!("{full}.01"), format!("{short}.")][g.below(4)].clone()),
                "case" => Some(full.to_uppercase()),
                "padded" => Some([format!(" {full}"), format!("{short}\n"), format!("\t{full} \n"), format!("\u{a0}{full}")][g.below(4)].clone()),
                "escaped" => Some(["a&b", "x<y", "pacs.008.001.08&", "&amp;", "\"q'", "&#65;"][g.below(6)].into()),
                "markup" => Some([format!("</MsgDefIdr><MsgDefIdr>{}", other.full), format!("<MsgDefIdr>{}</MsgDefIdr>", other.full), format!("]]>{full}"), format!("{full}<Rltd>")][g.below(4)].clone()),
                "blank" => Some(["", " ", "\n"][g.below(3)].into()),
                _ => Some(hostile(&mut g)),
            };
            match &idr { Some(s) => set_text(d, ht, &mut m.h, "MsgDefIdr", s), None => { let Node::S(fs) = &mut m.h else { unreachable!() }; fs[ii].clear() } }
            let rl = match s("rltd").as_str() { "none" => None, "full" => Some(full.clone()), "short" => Some(short.clone()), _ => Some(other.full.clone()) };
            let rel = rl.map(|r| { let n = if d.ty(ht)[ri].v == 1 { 1 + g.below(2) } else { 1 }; (0..n).map(|_| { let mut x = gr.build(rt_); set_text(d, rt_, &mut x, "MsgDefIdr", &r); x }).collect::<Vec<_>>() });
            { let Node::S(fs) = &mut m.h else { unreachable!() }; fs[ri] = rel.unwrap_or_default(); }
            let decoy = format!("<AppHdr><MsgDefIdr>{}</MsgDefIdr></AppHdr>{{\"AppHdr\":{{\"MsgDefIdr\":\"{}\"}}}}", other.full, other.full);
            match s("decoy").as_str() {
                "header" => set_text(d, ht, &mut m.h, "BizMsgIdr", &decoy),
                "document" => { let t = m.root(d).r; decoy_in(d, t, &mut m.d, &decoy); }
                _ => {}
            }
            let lay = k["lay"].as_u64().unwrap();
            // XML: framings; JSON: member orders and the envelope form
            let wrap = ["Envelope", "", "Message", "BizMsgEnvlp"][(lay % 4) as usize];
            let at = if lay % 3 == 0 { json!([["xmlns", 1, "dq"], ["xmlns:xsi", 2, "sq"]]) } else { json!([]) };
            // foreign parts, which all readers pass over
            let dc = s("decoy");
            let fp = format!("<{0}>{1}</{0}>", ["Foreign", "Header", "Sgntr", "AppHdrs"][g.below(4)], format!("<MsgDefIdr>{0}</MsgDefIdr><Inner><MsgDefIdr>{0}</MsgDefIdr></Inner>", other.full));
            let jp = { let h = format!("{{\"MsgDefIdr\":\"{}\"}}", other.full); match g.below(5) { 0 => format!("\"Envelope\":{{\"AppHdr\":{h}}}"), 1 => format!("\"MsgDefIdr\":\"{}\"", other.full), 2 => format!("\"Header\":{h}"), 3 => format!("\"Message\":{{\"AppHdr\":{h},\"MsgDefIdr\":\"{}\"}}", other.full), _ => format!("\"apphdr\":{h},\"message_type\":\"{}\"", other.mt) } };
            // messages of every size: filler the readers pass over, in front of everything, between header and document, or at the end
            let size = [0, 0, 0, 0, 3_000, 9_000, 20_000, 70_000][g.below(8)] + g.below(7);
            let fill = ["x", "é", "日", "<>&quot;", "MsgDefIdr ", "<AppHdr><MsgDefIdr>"][g.below(6)];
            let fill: String = if size < 10 { String::new() } else { fill.chars().cycle().take(size).collect() };
            let place = g.below(3);
            let note = |i: usize| json!(["text", if i == place && !fill.is_empty() { format!("<!-- {fill} -->") } else { String::new() }]);
            let mut t = vec![];
            if lay % 2 == 0 { t.push(json!(["decl", 1 + lay % 6])) }
            if !wrap.is_empty() { t.push(json!(["open", wrap, at])) }
            t.push(note(0));
            if dc == "before" && !wrap.is_empty() { t.push(json!(["text", fp])) }
            t.extend([json!(["open", "AppHdr", at]), json!(["hdr"]), json!(["close", "AppHdr"]), note(1), json!(["ws", 1 + lay % 4]), json!(["text", if dc == "after" && !wrap.is_empty() { &fp } else { "" }]), json!(["open", "Document", at]), json!(["root", "", []]), json!(["close", "Document"])]);
            if !wrap.is_empty() { t.push(json!(["close", wrap])) }
            t.push(note(2));
            let xs = render(d, &Value::Array(t), &m);
            let js = m.json(d);
            let i = js.find(",\"Document\"").unwrap();
            let cut = { let h = format!("\"AppHdr\":{{"); js.find(&h).unwrap() };
            let i = { let x = js[cut..].rfind(&format!(",\"Document\":{{\"{}\":", m.root(d).el)).map(|x| x + cut).unwrap_or(i); x };
            let (hm, dm) = (&js[cut..i], &js[i + 1..js.len() - 1]);
            let js2 = match lay % 4 { 0 => js.clone(), 1 => format!("{{{dm},{hm}}}"), 2 => format!(" {{\n {hm} ,\r\n\t{dm} }} "), _ => format!("{{\"@xmlns\":\"x\",{dm},{hm}}}") };
            let js2 = if dc == "before" { let i = js2.find('{').unwrap() + 1; format!("{}{jp},{}", &js2[..i], &js2[i..]) } else if dc == "after" { let i = js2.rfind('}').unwrap(); format!("{},{jp}{}", &js2[..i], &js2[i..]) } else { js2 };
            let js2 = if fill.is_empty() { js2 } else {
                let c = format!("\"filler\":{}", jstr(&fill));
                if place == 0 { let i = js2.find('{').unwrap() + 1; format!("{}{c},{}", &js2[..i], &js2[i..]) } else { let i = js2.rfind('}').unwrap(); format!("{},{c}{}", &js2[..i], &js2[i..]) }
            };
            let js = if fill.is_empty() { js } else { format!("{{\"filler\":{},{}", jstr(&fill), &js[1..]) };
            let pj_text = if lay == 8 { format!("{{\"Envelope\":{js}}}") } else { js2.clone() };
            let px = ans(guard(|| env::peek_message_type_from_xml(&xs)));
            let pj = ans(guard(|| env::peek_message_type_from_json(&pj_text)));
            let mt = |m: MxMessage| m.message_type().map(env::normalize_message_type);
            let mx = ans(guard(|| MxMessage::from_xml(&xs).and_then(mt)));
            let mj = ans(guard(|| MxMessage::from_json(&js2).and_then(mt)));
            let mut mm = pipe::msg(Value::String(xs.clone()));
            let pipe = ans(pipe::step(&mut mm, "parse", "payload", "t").map(|r| r.map(|_| mm.metadata()["t"]["message_type"].as_str().unwrap_or("?").to_string())));
            let pair = |s: &str| format!("[{},{}]", jstr(s), d.id(s));
            let (idj, idx) = match &idr { Some(s) => (pair(s), pair(trim(s))), None => ("0".into(), "0".into()) };
            let rest = format!("\"h\":{},\"rt\":{}", m.h.js(), m.rt);
            out.put(&format!("{{\"a\":\"Peek\",\"k\":{k},{rest},\"idj\":{idj},\"idx\":{idx},\"kept\":{},\"px\":{px},\"pj\":{pj},\"mx\":{mx},\"mj\":{mj},\"pipe\":{pipe},\"x\":{}}}", kept(), locals_js()), 10);
        }
    }
    println!("{{\"kinds_from_spec\":{},\"events\":{}}}", kinds.len(), out.lines);
}
/// puts a text into the first text field found
fn decoy_in(d: &Dict, t: usize, n: &mut Node, s: &str) -> bool {
    let Node::S(fs) = n else { return false };
    for (i, f) in d.ty(t).iter().enumerate() {
        for x in fs[i].iter_mut() {
            match f.k.as_str() { "s" if !f.x.starts_with('@') => { *x = Node::L(d.leaf_of(f.r, s)); return true } "t" => if decoy_in(d, f.r, x, s) { return true }, _ => {} }
        }
    }
    false
}
