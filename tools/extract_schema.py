#!/usr/bin/env python3
"""Authoring tool (NOT run by any check): transcribes the generated message
definitions of a given MXMessage revision into the schema dictionary that the
TLA+ specification reads.   extract_schema.py REPO OUT.json"""
import json, os, re, sys, glob

def parse_module(path):
    src = open(path, encoding="utf-8").read()
    src = re.sub(r"^\s*//.*$", "", src, flags=re.M)
    types = {}
    order = []
    # structs / enums
    for m in re.finditer(r"((?:#\[[^\]]*\]\s*)*)pub (struct|enum) (\w+)\s*\{(.*?)\n\}", src, re.S):
        attrs, kind, name, body = m.groups()
        ren = re.search(r'serde\(rename = "([^"]+)"\)', attrs)
        t = {"kind": kind, "rename": ren.group(1) if ren else None}
        if kind == "enum":
            codes = re.findall(r'#\[serde\(rename = "([^"]*)"\)\]\s*(\w+)\s*,', body)
            n = len(re.findall(r"^\s*(\w+)\s*,", body, re.M))
            assert n == len(codes), (path, name, n, codes)
            t["codes"] = [c for c, _ in codes]
            d = re.search(r"#\[default\]\s*(?:#\[[^\]]*\]\s*)*(\w+)", body)
            t["default"] = dict((v, c) for c, v in codes)[d.group(1)] if d else None
        else:
            fields = []
            for fm in re.finditer(r"((?:#\[[^\]]*\]\s*)*)pub (\w+):\s*([^\n]+?),?\n", body + "\n"):
                fa, fn, ft = fm.groups()
                r = re.search(r'rename = "([^"]+)"', fa)
                assert r, (path, name, fn)
                skip = "skip_serializing_if" in fa
                extra = re.sub(r'#\[serde\(\s*rename = "[^"]+"\s*,?\s*(skip_serializing_if = "Option::is_none")?\s*,?\s*\)\]', "", fa).strip()
                assert not extra, (path, name, fn, extra)
                opt = vec = False
                base = ft.strip()
                mo = re.fullmatch(r"Option<(.+)>", base)
                if mo: opt, base = True, mo.group(1)
                mo = re.fullmatch(r"Vec<(.+)>", base)
                if mo: vec, base = True, mo.group(1)
                mo = re.fullmatch(r"Box<(.+)>", base)
                if mo: base = mo.group(1)
                assert re.fullmatch(r"\w+", base), (path, name, fn, ft)
                assert skip == opt, (path, name, fn, "skip != opt")
                fields.append({"rust": fn, "xml": r.group(1), "opt": opt, "vec": vec, "ty": base})
            t["fields"] = fields
        types[name] = t
        order.append(name)
    for m in re.finditer(r"^pub struct (\w+);", src, re.M):
        types[m.group(1)] = {"kind": "unit"}; order.append(m.group(1))
    for m in re.finditer(r"^pub type (\w+) = ([^;]+);", src, re.M):
        types[m.group(1)] = {"kind": "alias", "to": m.group(2)}; order.append(m.group(1))
    # validate impls
    for m in re.finditer(r"impl Validate for (\w+) \{\s*fn validate\(\s*&self,\s*_?path: &str,\s*_?config: &ParserConfig,\s*_?collector: &mut ErrorCollector,?\s*\) \{(.*?)\n?\s*\}\n\}", src, re.S):
        name, body = m.groups()
        types[name]["steps"] = parse_body(path, name, body)
    return types, order

def parse_body(path, name, body):
    toks = re.findall(r'"(?:\\.|[^"\\])*"|\w+|&&|::|[^\s\w]', body)
    pos = 0
    steps = []
    def peek(k=0): return toks[pos+k] if pos+k < len(toks) else None
    def eat(*xs):
        nonlocal pos
        for x in xs:
            assert toks[pos] == x, (path, name, x, toks[max(0,pos-5):pos+10])
            pos += 1
    def take():
        nonlocal pos
        pos += 1
        return toks[pos-1]
    def lit(s): return json.loads(s) if s.startswith('"') else s
    def unq(s):
        assert s[0] == '"'
        b = s[1:-1]
        out = []; i = 0
        while i < len(b):
            if b[i] == "\\":
                i += 1
                out.append({"\\": "\\", '"': '"', "n": "\n", "r": "\r", "t": "\t"}[b[i]])
            else: out.append(b[i])
            i += 1
        return "".join(out)
    def childpath():
        eat("&", "helpers", "::", "child_path", "(", "path", ",")
        x = unq(take())
        if peek() == ",": take()
        eat(")")
        return x
    def optnum():
        if peek() == "None": take(); return None
        eat("Some", "("); n = int(take()); eat(")"); return n
    def stmt(bind, ctx):
        """bind: {var: field}; ctx: dict(opt, gated, iter)"""
        if peek() == "helpers":
            eat("helpers", "::"); fn = take(); eat("(")
            if peek() == "&": take()
            if peek() == "self": eat("self", "."); f = take(); it = False
            else: v = take(); f = bind[v]; it = ctx["iter"]
            eat(","); fname = unq(take()); eat(",")
            st = dict(field=f, fname=fname, **ctx)
            if fn == "validate_length":
                st["op"] = "len"; st["min"] = optnum(); eat(","); st["max"] = optnum(); eat(",")
            elif fn == "validate_pattern":
                st["op"] = "pat"; st["pattern"] = unq(take()); eat(",")
            else: assert 0, (path, name, fn)
            st["child"] = childpath(); eat(",", "config", ",", "collector")
            if peek() == ",": take()
            eat(")", ";")
            steps.append(st)
        elif peek() == "self" or (peek() in bind and peek(1) == "."):
            if peek() == "self": eat("self", "."); f = take()
            else: f = bind[take()]
            eat(".", "validate", "(")
            c = childpath(); eat(",", "config", ",", "collector")
            if peek() == ",": take()
            eat(")", ";")
            steps.append(dict(field=f, op="sub", child=c, **ctx))
        elif peek() == "if":
            eat("if", "let", "Some", "(", "ref"); v = take(); eat(")", "=", "self", "."); f = take()
            gated = False
            if peek() == "&&":
                eat("&&", "config", ".", "validate_optional_fields"); gated = True
            eat("{")
            while peek() != "}":
                stmt(dict(bind, **{v: f}), dict(ctx, opt=True, gated=ctx["gated"] or gated))
            eat("}")
        elif peek() == "for":
            eat("for"); v = take(); eat("in")
            if peek() == "&":
                eat("&", "self", "."); f = take()
            else: f = bind[take()]
            eat("{")
            while peek() != "}":
                stmt(dict(bind, **{v: f}), dict(ctx, iter=True))
            eat("}")
        else:
            assert 0, (path, name, toks[pos:pos+12])
    while pos < len(toks):
        if toks[pos] == "/" : break
        stmt({}, dict(opt=False, gated=False, iter=False))
    return steps

def main():
    repo, out = sys.argv[1:]
    res = {}
    for path in sorted(glob.glob(repo + "/src/document/*.rs") + glob.glob(repo + "/src/header/*.rs")):
        mod = os.path.basename(path)[:-3]
        if mod == "mod": continue
        types, order = parse_module(path)
        res[mod] = {"order": order, "types": types}
    json.dump(res, open(out, "w"), indent=1)
    print(len(res), sum(len(m["types"]) for m in res.values()))

main()
