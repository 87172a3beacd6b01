#!/usr/bin/env python3
"""Schema transcription (tools/extract_schema.py output) -> spec/dict.json, the constant data of the TLA+ specification.

  python3 tools/extract_schema.py /repo /tmp/schema.json && python3 tools/mkdict.py /tmp/schema.json spec/dict.json

Run once against the pinned commit; the result is committed and is NOT regenerated by any check (otherwise the
oracle would follow the code).  Values have been added to the committed file since (the borders of every set of every
pattern, numbers), so running this again gives the same structures and rules with other witnesses.  Layout (all indices 1-based, as TLA+ sequences are):
  types[i]   = [f1, f2, ...]; f = {x: element name, k: s|n|b|e|t, o: optional, v: repeating, r: class/enum/type index}
  enums[i]   = [wire code, ...]
  pats[i]    = {src, ast}; ast node: {t:set,s:[code points]} {t:notnl} {t:cat,a:[..]} {t:alt,a:[..]} {t:rep,n,m,a}  (m=-1 unbounded)
  classes[i] = {min, max, pat, w:[witness index...], g:[kind of each, see kind()]}   (max/pat 0 = no such rule)
  wit[i]     = string;  cps[i] = its code points
  nums       = accepted numbers (lexical = canonical form); badnums / badbools = rejected lexical forms
  roots      = [{m: module, t: public type name, x: root element, r: type index, mt: message type or ""}]
"""
import json, sys, random, re, unicodedata
try:
    from re import _parser as sp, _constants as sc
except ImportError:
    import sre_parse as sp, sre_constants as sc

S = json.load(open(sys.argv[1]))
out = sys.argv[2]
rng = random.Random(20022)

# ---------------------------------------------------------------- patterns
def setof(items):
    neg = False; cps = set()
    for op, av in items:
        if op is sc.NEGATE: neg = True
        elif op is sc.LITERAL: cps.add(av)
        elif op is sc.RANGE: cps |= set(range(av[0], av[1] + 1))
        elif op is sc.CATEGORY and av is sc.CATEGORY_DIGIT: cps |= {c for c in range(0x110000) if unicodedata.category(chr(c)) == "Nd"}   # as in XML Schema
        else: raise SystemExit(("set", op, av))
    assert not neg
    return {"t": "set", "s": sorted(cps)}

def ast(tree):
    parts = []
    for op, av in tree:
        if op is sc.LITERAL: parts.append({"t": "set", "s": [av]})
        elif op is sc.ANY: parts.append({"t": "notnl"})
        elif op is sc.IN: parts.append(setof(av))
        elif op is sc.SUBPATTERN: parts.append(ast(av[-1]))
        elif op is sc.BRANCH: parts.append({"t": "alt", "a": [ast(x) for x in av[1]]})
        elif op is sc.MAX_REPEAT:
            lo, hi, sub = av
            parts.append({"t": "rep", "n": lo, "m": -1 if hi is sc.MAXREPEAT else int(hi), "a": ast(sub)})
        else: raise SystemExit((op, av))
    return parts[0] if len(parts) == 1 else {"t": "cat", "a": parts}

def sample(n, big, r):
    t = n["t"]
    if t == "set": return chr(r.choice(n["s"]))
    if t == "notnl": return r.choice("x0-T")
    if t == "cat": return "".join(sample(a, big, r) for a in n["a"])
    if t == "alt": return sample(r.choice(n["a"]), big, r)
    lo, hi = n["n"], n["m"]
    if big == "min": k = lo
    elif big == "max": k = hi if hi >= 0 else lo + 6
    else: k = r.randint(lo, hi if hi >= 0 else lo + 8)
    return "".join(sample(n["a"], big, r) for _ in range(k))

pats, patidx = [], {}
def pattern(src):
    if src not in patidx:
        pats.append({"src": src, "ast": ast(sp.parse(src))}); patidx[src] = len(pats)
    return patidx[src]

# ---------------------------------------------------------------- witnesses
wit, wix = [], {}
def W(s):
    if s not in wix:
        wit.append(s); wix[s] = len(wit)
    return wix[s]

MARKUP = ["a<b>c</b>&\"q\"'z'", "</Document>", "<AppHdr>x", "]]>&amp;&#65;", "xmlns=\"urn:evil\"", "<!--c-->", "p\\nq",
          "<Envelope>", "-->?><"]
UNI = ["é日本😀x", "x\u00a0y\u2003z", "a\nb", "l1\r\nl2\tend"]
PAD = [" pad", "pad ", "\tpad\n", "   ", "\u00a0nb\u00a0"]

def witnesses(cmin, cmax, pat):
    """strings (oracle-free): boundary lengths, pattern hits and near misses, text that stresses the wire formats"""
    ws = []
    full = (lambda s: re.fullmatch(pats[pat - 1]["src"], s) is not None) if pat else (lambda s: True)
    A = pats[pat - 1]["ast"] if pat else None
    if pat:
        for big in ("min", "max", "mid", "mid"):
            for _ in range(40):
                s = sample(A, big, rng)
                if s == s.strip() and (not cmax or cmin <= len(s) <= cmax): break
            ws.append(s)
        ok = ws[-1]
        # near misses: one symbol too many / too few, substring hits, case flips, foreign characters
        ws += [ok + ok[-1], ok[:-1], ok[1:], "~#" + ok, ok + "~|", ok.swapcase(), ok[: len(ok) // 2] + "é" + ok[len(ok) // 2 + 1:],
               ok + "\n", ok + "\nx", " " + ok + " ", "x " + ok, "{" + ok[1:], "\u00a0" + ok + "\u2003", "", " "]
        for _ in range(3):
            s = list(sample(A, "mid", rng))
            s[rng.randrange(len(s))] = rng.choice("aZ0/-. €^")
            ws.append("".join(s)[: (cmax or 60) ])
    if cmax:
        ch = "b"
        if pat and not full("b" * max(cmin, 1)): ch = None
        fill = (lambda n: "b" * n) if ch else (lambda n: (sample(A, "max", rng) * (n + 1))[:n])
        for n in {0, max(cmin - 1, 0), cmin, cmin + 1, cmax - 1, cmax, cmax + 1, cmax + 7}:
            ws.append(fill(n))
        ws += ["é" * cmax, "😀" * (cmax + 1), "é" * (cmin - 1) if cmin > 1 else "é", " " * (cmax + 2), fill(cmax) + " "]
    if not pat:
        ws += MARKUP + UNI + PAD + ["", "Plain text 1"]
    else:
        ws += [rng.choice(MARKUP), rng.choice(UNI), rng.choice(PAD)]
        if cmax and full("a~<&>\"'z"): ws += [m for m in MARKUP if len(m) <= cmax]
    seen, res = set(), []
    for w in ws:
        if w not in seen and not (cmax > 1000 and len(w) > cmax + 1):
            seen.add(w); res.append(w)
    rng.shuffle(res)
    # the first witness of a class is always one that satisfies it (used for "clean" messages)
    good = [w for w in res if full(w.strip()) and (not cmax or cmin <= len(w) <= cmax) and w == w.strip() and w.isascii()
            and w and not set(w) & set("<>&\"'\\\n\r\t")]
    while not good:
        w = sample(A, "mid", rng)
        if w.isascii() and w == w.strip() and (not cmax or cmin <= len(w) <= cmax): res.append(w); good = [w]
    res.remove(good[0]); res.insert(0, good[0])
    return res, len(good)

def kind(cmin, cmax, pat, x):
    """which rules a value is meant to break: only steers the choice of values, the specification decides for itself"""
    return int(cmax > 0 and len(x) < cmin) + 2 * int(cmax > 0 and len(x) > cmax) + 4 * int(pat > 0 and not re.fullmatch(pats[pat - 1]["src"], x.strip()))

classes, cidx = [], {}
def cls(steps):
    cmin = cmax = 0; pat = 0
    for s in steps:
        if s["op"] == "len": cmin, cmax = s["min"] or 0, s["max"] or 0
        elif s["op"] == "pat": pat = pattern(s["pattern"])
    assert [s["op"] for s in steps] in ([], ["len"], ["pat"], ["len", "pat"])
    k = (cmin, cmax, pat)
    if k not in cidx:
        ws, ngood = witnesses(*k)
        classes.append({"min": cmin, "max": cmax, "pat": pat, "w": [W(x) for x in ws], "g": [kind(cmin, cmax, pat, x) for x in ws]}); cidx[k] = len(classes)
    return cidx[k]

types, tidx, enums, eidx = [], {}, [], {}
claimed = {}
def ref(m, ty):
    """(kind, index) of a non-String type; structurally equal types of different modules share an index, structurally
    equal types of the same module (different code) do not"""
    if (m, ty) in claimed: return "t", claimed[m, ty]
    if ty == "f64": return "n", 0
    if ty == "bool": return "b", 0
    T = S[m]["types"][ty]
    if T["kind"] == "enum":
        codes = tuple(c[1] if isinstance(c, list) else (c.get("code") if isinstance(c, dict) else c) for c in T["codes"])
        if codes not in eidx:
            enums.append(list(codes)); eidx[codes] = len(enums)
        return "e", eidx[codes]
    fs = []
    for f in T["fields"]:
        steps = [s for s in T["steps"] if s["field"] == f["rust"]]
        for s in steps:
            assert s["child"] == f["xml"] and s.get("fname", f["xml"]) == f["xml"] and s["opt"] == f["opt"] and s["iter"] == f["vec"]
        if f["ty"] == "String":
            k, r = "s", cls(steps); assert all(not s["gated"] for s in steps)
        else:
            k, r = ref(m, f["ty"])
            if k in "et": assert len(steps) == 1 and steps[0]["op"] == "sub" and steps[0]["gated"] == f["opt"], (m, ty, f, steps)
            else: assert not steps
        fs.append({"x": f["xml"], "k": k, "o": int(f["opt"]), "v": int(f["vec"]), "r": r})
    # validation visits fields in declaration order
    order = [s["field"] for s in T["steps"]]
    decl = [f["rust"] for f in T["fields"]]
    assert sorted(order, key=decl.index) == order
    key = json.dumps(fs)
    taken = {i for (mm, _), i in claimed.items() if mm == m}
    free = [i for i in tidx.setdefault(key, []) if i not in taken]
    if not free:
        types.append(fs); tidx[key].append(len(types)); free = [len(types)]
    claimed[m, ty] = free[0]
    return "t", free[0]

REG = {}
for line in open("/repo/src/message_registry.rs"):
    m = re.search(r'(short_form|full_form|rust_type_name|xml_element_name): "([^"]+)"', line)
    if m:
        REG.setdefault("cur", {})[m[1]] = m[2]
        if m[1] == "xml_element_name":
            cur = REG.pop("cur"); REG[cur["full_form"].replace(".", "_")] = cur
roots = []
for m in sorted(S):
    used = {f["ty"] for T in S[m]["types"].values() if T["kind"] == "struct" for f in T["fields"]}
    (rt,) = [n for n in S[m]["order"] if n not in used]
    k, r = ref(m, rt)
    g = REG.get(m)
    roots.append({"m": m, "t": rt, "x": S[m]["types"][rt].get("rename") or rt, "r": r, "mt": g["short_form"] if g else "",
                  "full": g["full_form"] if g else "", "el": g["xml_element_name"] if g else ""})
    if g: assert g["rust_type_name"] == rt
# patterns no schema uses, to exercise the pattern rule itself (alternation, nesting, empty)
for x in ["a|bc", "(ab)+c?", "[ab]{2,3}|c*x", "", "a?", "(a|b)*\\.[0-9]{2}", "x{0,2}y{3}", "\\^a\\$"]: pattern(x)
# texts of the domain, met by every text field in C01 besides the values of its class
DOM = """US GB DE FR CH CN IN XX ZZ UK us EUR USD GBP JPY XXX XAU eur en fr DEUTDEFF DEUTDEFFXXX BANKDEFFXXX CHASUS33 CHASUS33XXX TESTUS00 DEUTDEFFX deutdeff
DE89370400440532013000 GB29NWBK60161331926819 GB82WEST12345698765432 GB82WEST12345698765431 DE00000000000000000000 XX00A 5493001KJTIIGC8Y1R12 529900T8BM49AURSDO55 00000000000000000000
eb6305c9-1f7f-49de-aed0-16487c27b42d 00000000-0000-4000-8000-000000000000 EB6305C9-1F7F-49DE-AED0-16487C27B42D eb6305c9-1f7f-19de-aed0-16487c27b42d eb6305c91f7f49deaed016487c27b42d
SALA CASH SUPP CDTR DEBT SHAR CRED SLEV INST RVPO SDVA URGP NURG HIGH NORM CUST AC03 AM04 FF01 ACSC RJCT PDNG ACCC 0000 NREF NONREF NOTPROVIDED UNKNOWN TEST NARR OTHR BANK CUID IBAN SWIFT
pacs.008.001.08 camt.053.001.08 head.001.001.02 swift.cbprplus.02 swift.cbprplus.stp.03 swift.cbprplus.adv.02 pacs.008.001.8 pacs.008 USABA DEBLZ GBDSC
2024-02-29 2023-02-29 2024-02-29T23:59:60+00:00 9999-12-31T23:59:59.999+14:00 0001-01-01T00:00:00-00:00 2024-06-30T12:00:00+00:00 2024-06-30T12:00:00-05:30 2024-06-30T12:00:00Z +00:00 +14:59 +15:00 2024-06-30
+49-301234567 +1-800() +999-1 +1-1 49-301234567 0 00 000 1 7 12 99 123 999 1234 12345 99999 123456 123456789012345 1234567890123456 12345678 +1 00001 021000021 20041010050500001321M02606
/INV/2024-001 //x x//y /x x/ a/b/c // / ? - A z ( ' + : . , # @ % _ ~ ` | \\ [x] {x} <none> 100% $5 a=b a;b !
test@example.com https://example.com/?a=1&b=2 O'Brien ACME""".split()
DOM += ["ACME Corp.", "John Doe", "C/O John, Apt. 5", "Line 1\nLine 2", "Line 1\r\nLine 2", "a  b", "a b ", " a b", "Müller & Söhne", "Straße", "12 Main St. (rear)", "SEE ATTACHED", "/ROC/123 //SPRO/01", "x\ty", "Ångström", "São Paulo", "株式会社", "Ⅷ", "١٢٣", "１２３", "ＡＢＣ", "I\u0307", "ﬀ", "a\u0301", "\u200b", "x\u200b", "\u2028x", "€", "’"]
assert len(set(DOM)) == len(DOM) and len(DOM) < 400
d = {"types": types, "enums": enums, "pats": pats, "classes": classes, "wit": wit, "cps": [[ord(c) for c in w] for w in wit],
     "nums": ["0", "1", "2.5", "1000.25", "0.01", "123456789.12", "99999999999999.98", "-3.5", "0.00001", "1.1234567891", "0.0000001", "123456.789012", "100000000000000000000000", "10000000000000000", "4503599627370497.5"],
     "numx": [["2.50", 3], ["00.01", 5], ["1000.2500", 4], ["1.", 2], ["-03.5", 8], ["+2.5", 3]],
     "badnums": ["", "abc", "1,000.00", "12.5.1", "EUR 5", "0x10", "1,5", "1_000", "1 000", "--1", "1-", ".", "-", "+", "e5", "1e", "١", "½", "true", "null", "1f", "1%", "１２", "1\u00a0", "#1"],
     "badbools": ["", "maybe", "TRU", "2", "tRUE", "yEs", "Ye", "Y", "N", "tt", "on", "off", "null", "truee", "01", "-1", "1.0", "true,"],
     "roots": roots, "dom": DOM, "domcps": [[ord(c) for c in w] for w in DOM]}
json.dump(d, open(out, "w"), ensure_ascii=True, separators=(",", ":"))
print("structures in code", len(claimed), "types", len(types), "fields", sum(map(len, types)), "enums", len(enums), "pats", len(pats), "classes", len(classes),
      "witnesses", len(wit), "max/class", max(len(c["w"]) for c in classes), "roots", len(roots), "registered", sum(1 for r in roots if r["mt"]))
