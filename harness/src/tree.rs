//! Message trees: the specification's representation of a message, and the harness's own JSON/XML writers for them.
use crate::dict::*;
use std::fmt::Write;
#[derive(Clone, Debug, PartialEq)]
pub enum Node { S(Vec<Vec<Node>>), L(i64) }
use Node::*;
impl Node {
    pub fn out(&self, s: &mut String) {
        match self {
            L(i) => { let _ = write!(s, "{i}"); }
            S(fs) => {
                s.push('[');
                for (i, f) in fs.iter().enumerate() {
                    if i > 0 { s.push(',') }
                    s.push('[');
                    for (j, n) in f.iter().enumerate() { if j > 0 { s.push(',') } n.out(s); }
                    s.push(']');
                }
                s.push(']');
            }
        }
    }
    pub fn js(&self) -> String { let mut s = String::new(); self.out(&mut s); s }
    pub fn leaves(&self) -> usize { match self { L(_) => 1, S(f) => f.iter().flatten().map(Node::leaves).sum() } }
}
pub fn jstr(s: &str) -> String { serde_json::to_string(s).unwrap() }
/// lexical form of a leaf; ids below 1 denote values outside the accepted domain
pub fn lex(d: &Dict, f: &Field, id: i64) -> String {
    match f.k.as_str() {
        "s" => d.text(f, id),
        "n" => if id > 100 { d.numx[id as usize - 101].0.clone() } else if id >= 1 { d.nums[id as usize - 1].clone() } else { d.badnums[(-id) as usize].clone() },
        "b" => match id { 1 => "false".into(), 2 => "true".into(), _ => d.badbools[(-id) as usize].clone() },
        "e" => if id >= 1 { d.enums[f.r - 1][id as usize - 1].clone() } else { badcode(d, f.r, id) },
        _ => unreachable!(),
    }
}
/// texts tried as codes: all codes of all enumerations, their variations, codes ISO 20022 uses elsewhere
pub fn tried(d: &Dict) -> &'static [String] {
    static T: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<String> = d.enums.iter().flatten().cloned().collect();
        v.extend(ISO.split_whitespace().map(String::from));
        let base = v.clone();
        for (i, c) in base.iter().enumerate() {
            v.extend([c.to_lowercase(), format!("{}{}", &c[..1], c[1..].to_lowercase()), format!("{c}X"), c[1..].to_string(), c[..c.len() - 1].to_string(), format!("{c}.")]);
            let k = i % c.len();
            for x in ["A", "D", "R", "O", "0"] { v.push(format!("{}{x}{}", &c[..k], &c[k + 1..])) }
        }
        v.extend(["", "-", "0", "1", "NULL", "null", "OTHR", "Other", "UNKNOWN", "ZZZZ", "????", "É", "日本"].map(String::from));
        v.sort(); v.dedup();
        v
    })
}
const ISO: &str = "TAGC PHYS BRCD MGST MAGN CICC DFLE CTLS ECTL CDFL MLEE SICC OPTC SSCD CPIN APKI CHDT MNVR FPIN CHSA BANK CUST RCCT MERC ACQR ISSR OIPT AGNT OUIS UNAT BOTH ATTD SATT UATT CSCH SECB WALT CONT \
 INDA INGA CLRG COVE MTHD ACCC ACCP ACSC ACSP ACTC ACWC ACWP ACFC ACIS BLCK CANC CPUC PATC PART PDNG RCVD RJCT PDCR INFO PACR CNCL RJCR ACCR MODI FUTR RJPO STNT CHNG SUSP INPR DEFR DVPO \
 CRED DEBT SHAR SLEV CRDT DBIT HIGH NORM URGT OPAV OPBD CLAV CLBD ITAV ITBD FWAV PRCD XPCD BOOK AVLB BLKD BKDT RPTD EARL NEWA \
 ADVI FRZF INSU INTR MORT MTGL OTHR SALA SUPP TAXS TREA TRAD BONU CASH CBFF CHAR CHQB COMC CORT COST DCRD DIVI DIVD DEPT EPAY GDDS GOVT HEDG ICCP IDCP INTC LICF LOAN MDCS NITX NWCH NWCM OTLC PAYR PENS PRCP RENT RINP RLTI RCPT RIMB SCVE SECU SSBE STDY SUBS TELI UBIL VATX WEBI WHLD \
 HOLD PHOB TELB ALLW OUTB CHEF PHON SWFT FTPD COPY CODU DUPL PDUP ORIG REPR TRNS FRST RCUR FNAL OOFF RPRE YEAR MNTH QURT MIAN WEEK DAIL ADHO FRTN \
 MALE FEMA DOCT MIST MISS MADM MIKS SENIOR BIZZ CCIR DLVT PBOX HOME ADDR MLTO MR MRS ARNU CCPT DRLC EMPL NIDN SOSC TXID BOID CHID CINC COID DUNS GS1G SREN SRET \
 CREN DEBN DISP RADM RPIN FXDR SOAC DNFA CMCN CNFA HIRI INVS MSIN PROF PUOR QUOT SPRR PRLK SBIN TSUT VCHR CINV SCOR STMT FOUP PMNT SALU RECO NARR LATE CURR TECH FRAD CUTA UPAY AM09 AC03 \
 MM01 MM02 MM03 MM04 MM05 MM06 MM07 MM08 MM09 MM10 MM11 MM12 QTR1 QTR2 QTR3 QTR4 HLF1 HLF2 CCRD DBCR ELEC MPIN USER SAFT AUTO BATC TEL1 PRST BYPS FFLB FDPS UNBE ELOB BIOM PINC \
 AGRT SPOT SALE BUYS FDTR LQTR MMSK NOAS NOOR CSHB SUWD ERTA IRTA STDR URGP NURG SDVA SEPA TRF URNS G001 G002 G003 G004 BKTR SVLV PRPT RTGS RTNS MPNS";
/// values that are not codes of enumeration e
pub fn badcode(d: &Dict, e: usize, id: i64) -> String {
    if id <= -1000 { return tried(d)[(-id - 1000) as usize].clone() }
    let codes = &d.enums[e - 1];
    let c = match -id {
        0 => "ZZ-NOT-A-CODE".to_string(),
        1 => codes[0].to_lowercase(),
        2 => format!("{}X", codes[codes.len() - 1]),
        3 => String::new(),
        4 => d.enums.iter().flatten().find(|c| !codes.contains(c)).unwrap().clone(),
        _ => codes[codes.len() / 2][1..].to_string(),
    };
    if codes.contains(&c) { "ZZ-NOT-A-CODE".into() } else { c }
}
thread_local! {
    /// one field to be written under another name: address of its structure, position, name
    pub static ALIAS: std::cell::RefCell<Option<(usize, usize, String)>> = const { std::cell::RefCell::new(None) };
}
fn name_of(n: &Node, i: usize, f: &Field) -> String {
    ALIAS.with_borrow(|a| match a { Some((p, k, x)) if *p == n as *const Node as usize && *k == i => x.clone(), _ => f.x.clone() })
}
pub fn json(d: &Dict, t: usize, n: &Node, s: &mut String) {
    let S(fs) = n else { unreachable!() };
    s.push('{');
    let mut first = true;
    for (i, (f, inst)) in d.ty(t).iter().zip(fs).enumerate() {
        // a repeating field is one key with an array; more instances than a single-valued field admits are repeated keys
        if inst.is_empty() { continue }
        let one = |x: &Node, s: &mut String| match x {
            S(_) => json(d, f.r, x, s),
            L(id) => {
                let l = lex(d, f, *id);
                let bare = matches!(f.k.as_str(), "n" | "b") && *id >= 1;
                if bare { s.push_str(&l) } else { s.push_str(&jstr(&l)) }
            }
        };
        if f.v == 1 {
            if !first { s.push(',') } first = false;
            s.push_str(&jstr(&name_of(n, i, f))); s.push_str(":[");
            for (k, x) in inst.iter().enumerate() { if k > 0 { s.push(',') } one(x, s) }
            s.push(']');
        } else {
            for x in inst {
                if !first { s.push(',') } first = false;
                s.push_str(&jstr(&name_of(n, i, f))); s.push(':'); one(x, s);
            }
        }
    }
    s.push('}');
}
pub fn esc(t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() { match c { '<' => o.push_str("&lt;"), '>' => o.push_str("&gt;"), '&' => o.push_str("&amp;"), '"' => o.push_str("&quot;"), '\'' => o.push_str("&apos;"), '\r' => o.push_str("&#13;"), c => o.push(c) } }
    o
}
thread_local! {
    /// how texts and layout are written: 0 all references, 1 as few as XML allows, 2 outer white space as references, 3 CDATA,
    /// 4 a mixture of characters, references, CDATA and notes, 5 the same, with notes and white space between elements and other forms of tags
    pub static STYLE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static NOTE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// the style keeps white space around texts
pub fn kept() -> bool { STYLE.get() >= 2 }
fn tick() -> usize { let k = NOTE.get() + 1; NOTE.set(k); k.wrapping_mul(2654435761) >> 7 & 0xffff }
const NOTES: [&str; 14] = ["<!---->", "<!-- a note -->", "<!--<AppHdr>-->", "<!-- </AppHdr> -->", "<!--</Document>-->", "<!-- <Document><Rcpt> -->", "<!-- <MsgDefIdr>pacs.002.001.10</MsgDefIdr> -->", "<!-- <Envelope xmlns=\"urn:evil\"> -->", "<!-- > \" ' & <![CDATA[ ]]> <?x -->", "<!-- é\r\n\t日本 <a -->",
    "<?note?>", "<?note <Document> ?>", "<?pi a=\"<AppHdr>\" b='>'?>", "<?x </Document> <!-- > ?>"];
/// a comment (kind 1) or a processing instruction (kind 2), in rotation; kind 0: either
pub fn note(kind: usize) -> &'static str { let k = tick(); match kind { 1 => NOTES[k % 10], 2 => NOTES[10 + k % 4], _ => NOTES[k % 14] } }
const WSX: [char; 4] = [' ', '\t', '\n', '\r'];
/// element content
fn esct(t: &str) -> String {
    match STYLE.get() {
        0 => esc(t),
        1 => t.replace('&', "&amp;").replace('<', "&lt;").replace("]]>", "]]&gt;").replace('\r', "&#13;"),
        2 => {
            let a = t.trim_start_matches(WSX); let b = a.trim_end_matches(WSX);
            let refs = |s: &str| s.chars().map(|c| format!("&#{};", c as u32)).collect::<String>();
            format!("{}{}{}", refs(&t[..t.len() - a.len()]), esc(b), refs(&a[b.len()..]))
        }
        3 => format!("<![CDATA[{}]]>", t.replace("]]>", "]]]]><![CDATA[>").replace('\r', "]]>&#13;<![CDATA[")),
        _ => {
            let mut o = String::new();
            let n = t.chars().count();
            for (i, c) in t.chars().enumerate() {
                let mut k = tick() % 24;
                let edge = i == 0 || i + 1 == n;
                if k == 0 { o.push_str(note(0)); k = 20 }
                // white space at the edges, or in a run of white space, must not stand on its own
                if WSX.contains(&c) && (edge || c == '\r' || k > 12) && k != 1 { k = 2 }
                if c == '\r' { k = 2 }
                match k { 1 => { o.push_str("<![CDATA["); o.push(c); o.push_str("]]>") } 2 => o.push_str(&format!("&#{};", c as u32)), 3 => o.push_str(&format!("&#x{:X};", c as u32)), 4 => o.push_str(&format!("&#x0{:x};", c as u32)), _ => o.push_str(&esc(&c.to_string())) }
            }
            if tick() % 12 == 0 { o.push_str(note(0)) }
            o
        }
    }
}
fn gap(s: &mut String) { if STYLE.get() == 5 { match tick() % 12 { 0..=2 => s.push_str("\n  "), 3 => s.push_str("\r\n\t"), 4 => s.push_str(note(0)), 5 => { s.push_str(" "); s.push_str(note(1)); s.push('\n') } _ => {} } } }
fn close(name: &str, s: &mut String) { s.push_str("</"); s.push_str(name); if STYLE.get() == 5 { match tick() % 16 { 0 => s.push(' '), 1 => s.push_str("\r\n\t"), _ => {} } } s.push('>') }
pub fn xml(d: &Dict, name: &str, t: usize, n: &Node, s: &mut String) {
    let S(fs) = n else { unreachable!() };
    s.push('<'); s.push_str(name);
    let attr = STYLE.get() == 5;
    for (i, (f, inst)) in d.ty(t).iter().zip(fs).enumerate() {
        if f.x.starts_with('@') {
            let a = name_of(n, i, f); let a = a.trim_start_matches('@'); for x in inst { if let L(id) = x { let v = esc(&lex(d, f, *id)); let _ = if attr && tick() % 3 == 0 { write!(s, "\n {a} = '{v}' ") } else { write!(s, " {a}=\"{v}\"") }; } }
        }
    }
    if attr && tick() % 16 == 0 { s.push(' ') }
    s.push('>');
    let mixed = d.ty(t).iter().any(|f| f.x == "$value");
    for (i, (f, inst)) in d.ty(t).iter().zip(fs).enumerate() {
        if f.x.starts_with('@') { continue }
        let fx = name_of(n, i, f);
        for x in inst {
            if !mixed { gap(s) }
            match x {
                S(_) => xml(d, &fx, f.r, x, s),
                L(id) if f.x == "$value" => s.push_str(&esct(&lex(d, f, *id))),
                L(id) => {
                    let l = lex(d, f, *id);
                    if attr && l.is_empty() && tick() % 2 == 0 { let _ = write!(s, "<{fx}/>"); continue }
                    let _ = write!(s, "<{0}{1}>{2}", fx, if attr && tick() % 16 == 0 { " " } else { "" }, esct(&l));
                    close(&fx, s);
                }
            }
        }
    }
    if !mixed { gap(s) }
    close(name, s);
}
