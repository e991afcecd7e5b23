"""Messages of the language server protocol: bodies, header forms, and their parts."""
import random, hashlib, json, re
from fractions import Fraction

WORDS = ["value", "the", "längd", "Größe", "速度", "x", "unit", "🚀", "é", "Quantity", "Scale", "Dimension", "let", "fn", "²", "µm", "naïve", "\u2028", "ok"]
TYPES = ["Quantity<Scale, Dimension<_M, _L<1>>>", "Quantity<Scale<_2<-3>, _3<0>, _5<-3>, _Pi<0>>, Dimension<_M<0>, _L<1>, _T<-1>, _I<0>, _Θ<0>, _N<0>, _J<0>, _A<0>>, f64>",
         "Quantity<Scale, Dimension<_M<1>, _L<1>, _T<-2>>, i32>", "Quantity<Scale<_2<3>, _3, _5<3>>, Dimension<_M, _L, _T<1>>, f32>", "Quantity<Scale, Dimension<_M<1>, _L<2>, _T<-2>>, f64, Wheel>"]
def words(r, n): return " ".join(r.choice(WORDS) for _ in range(n))
def pad(r, size, s=""):
    if size <= 0: return s
    c = r.choice(["a", "é", "速", "🚀", "\\", "\"", " "])
    return s + c * max(0, (size - len(s)) // len(c.encode()))
def rng(r):
    a, b = r.randrange(500), r.randrange(80)
    return {"start": {"line": a, "character": b}, "end": {"line": a, "character": b + r.randrange(9)}}
def label(r, units, foreign=False):
    t = r.choice(TYPES)[len("Quantity"):] if units else "<%s>" % r.choice(["i32", "Foo, Scale", "u8"])
    return [{"value": ": "}, {"value": "Quantity" if units or foreign else r.choice(["Vec", "Box"]), "location": {"uri": "file:///q.rs", "range": rng(r)}, **({"tooltip": "t%d" % r.randrange(9)} if r.random() < .5 else {})}, {"value": t}]
def hint(r, units, edits=None):
    h = {"position": {"line": r.randrange(999), "character": r.randrange(99)}, "label": label(r, units), "kind": 1, "paddingLeft": False, "data": {"id": r.randrange(10 ** 9), "hash": str(r.randrange(2 ** 63)), "v": None, "f": 0.25}}
    if edits is None: edits = r.randrange(3)
    if edits: h["textEdits"] = [{"range": rng(r), "newText": ": " + "".join(p["value"] for p in h["label"][1:])}]
    if edits == 2: h["textEdits"].append({"range": rng(r), "newText": "use whippyunits::quantity::Quantity;\n"})
    if r.random() < .3: h["tooltip"] = {"kind": "markdown", "value": words(r, 5)}
    return h
def hover_text(r, units, size):
    code = "let %s: %s" % (r.choice(["x", "größe", "v_1"]), r.choice(TYPES) if units else r.choice(["i32", "Vec<Scale>", "Dimension"]))
    if r.random() < .5: code += " // " + words(r, 3)
    pre = r.choice(["", words(r, 3) + "\n\n", "\n"])
    return pre + "```rust\n" + r.choice(["", " ", "\n"]) + code + r.choice(["\n", "\n\n", " \n", ""]) + "```" + r.choice(["", "\n", "\n\n---\n\n" + words(r, 8), "\n\n" + pad(r, size)])
def body(kind, r, size):
    j = dict(ensure_ascii=r.random() < .3, separators=r.choice([(",", ":"), (", ", ": ")]))
    def d(o): return json.dumps(o, **j).encode()
    def msg(**k):
        m = {"jsonrpc": "2.0", **k}
        if r.random() < .2: m["extra"] = {"unknown": [1, None, "ü"]}
        if r.random() < .1: m = dict(reversed(list(m.items())))
        return m
    ident = r.choice([r.randrange(10 ** 6), str(r.randrange(99)), 0, 2 ** 31 - 1])
    def result(x): return d(msg(id=ident, result=x))
    if kind == "request": return d(msg(id=ident, method="textDocument/hover", params={"textDocument": {"uri": "file:///%s.rs" % words(r, 1)}, "position": {"line": 3, "character": 4}, "pad": pad(r, size)}))
    if kind == "notify": return d(msg(method="$/progress", params={"token": words(r, 2), "value": pad(r, size)}))
    if kind == "text": return d(msg(method="textDocument/didChange", params={"contentChanges": [{"text": pad(r, size, "fn main() { let q: %s = todo!(); }\r\n\r\n" % r.choice(["u8"] + TYPES))}]}))
    if kind == "response": return result(r.choice([1, "x", [], {}, {"capabilities": {"hoverProvider": True, "pad": pad(r, size)}}, [pad(r, size)]]))
    if kind == "nulls": return d(msg(id=None, result=None, error=None, params=None))
    if kind == "pretty": return json.dumps(msg(id=ident, result={"a": [1, {"b": words(r, 3)}], "c": None}), indent=2, ensure_ascii=False).encode() + b"\r\n"
    if kind == "batch": return d([msg(id=ident, result=words(r, 3)), msg(method="x", params=[pad(r, size)])])
    if kind == "units": return d(msg(id=ident, method="workspace/executeCommand", params={"contents": {"kind": "markdown", "value": hover_text(r, True, size)}, "result": {"label": label(r, True)}}))
    if kind == "nested": return d(msg(method="m", params={"log": "Content-Length: %d\r\n\r\n{}\r\n" % r.randrange(99) + pad(r, size)})) + r.choice([b"", b"\r\n\r\n", b"\n"])
    if kind == "notjson": return r.choice([b"{", b"hello", b"{\"a\":1}}", b"\r\n\r\n", b"{'a': 1}", b"Content-Length: 2\r\n\r\n{}", "\ufeff{}".encode(), b"Quantity<Scale, Dimension>", b"Quantity<"]) + pad(r, size).encode()
    if kind == "notutf8": return b"{\"x\":\"\xff\xfe\xc3(" + bytes(r.randrange(128, 256) for _ in range(r.randrange(20))) + b"\"}" + b"\x80" * size
    if kind == "empty": return b""
    if kind == "numbers": return b'{"jsonrpc":"2.0","id":12345678901234567890123,"result":[1.0,1e5,-0,1E-7,0.1000,123456789012345678901234567890.5,1.7976931348623157e308]}'
    if kind == "escapes": return b'{"jsonrpc":"2.0","id":1,"result":"\\u00e9\\/\\ud83d\\ude80 Quantity Scale Dimension \\u0000 \\t"}'
    if kind == "deep": n = r.choice([100, 127, 128, 129, 200]); return b'{"id":1,"result":' + b"[" * n + b'"Quantity<Scale, Dimension>"' * r.randrange(2) + b"]" * n + b"}"
    if kind == "error": return d(msg(id=ident, error={"code": -32800, "message": words(r, 4) + r.choice(["", " " + TYPES[0]]), "data": None}))
    if kind == "hover-plain": return result({"contents": {"kind": "markdown", "value": hover_text(r, False, size)}, "range": rng(r)})
    if kind == "hover-words": return result({"contents": {"kind": "markdown", "value": " ".join(["Quantity", "of", "Scale", "and", "Dimension"]) + "\n" + hover_text(r, False, size)}, "range": rng(r)})
    if kind == "hover-foreign": return result({"contents": {"kind": "markdown", "value": "```rust\n" + r.choice(["let a: Quantity<Foo, Scale, Dimension>\n\n", "struct Quantity<T>;  // Scale of Dimension\n", "fn f(q: Quantity<u8>) -> Dimension<Scale>\n "]) + "```"}, "range": rng(r)})
    if kind == "hover-null": return result(None)
    if kind == "hover-generic": return result({"contents": {"kind": "markdown", "value": "```rust\npub struct Quantity<Scale, Dimension, T = f64, Brand = ()>\n```\n\n---\n\n" + words(r, 6)}, "range": rng(r)})
    def extra(o):
        if r.random() < .6: o["range"] = rng(r)
        if r.random() < .4: o["actions"] = [{"title": "t", "commands": [{"command": "c", "arguments": [1, None, 2.5, 2 ** 53, -7]}]}]
        if r.random() < .2: o["range"] = None
        return o
    if kind == "hover-units": return result(extra({"contents": {"kind": r.choice(["markdown", "plaintext"]), "value": hover_text(r, True, size), **({"x": [None, 1]} if r.random() < .3 else {})}}))
    if kind == "hover-list": return result(extra({"contents": [{"language": "rust", "value": "let a: " + r.choice(TYPES)}, {"language": "rust", "value": words(r, 4)}, {"kind": "markdown", "value": hover_text(r, True, size)}]}))
    if kind == "hover-strings": return result(extra({"contents": [words(r, 3), {"language": "rust", "value": "let a: " + r.choice(TYPES)}, hover_text(r, True, size)]}))
    if kind == "hover-string": return result(extra({"contents": hover_text(r, True, size)}))
    if kind == "hints-plain": return result([hint(r, False) for _ in range(r.randrange(4))])
    if kind == "hints-words": return result([{**hint(r, False), "tooltip": "Quantity of Scale and Dimension"} for _ in range(1 + r.randrange(3))])
    if kind == "hints-units": return result([hint(r, r.random() < .6) for _ in range(r.randrange(5))] + [hint(r, True)] + [{"position": {"line": 1, "character": 2}, "label": ": " + TYPES[0]}] * r.randrange(2))
    if kind == "hint-resolve": return result(hint(r, True))
    if kind == "completion": return result({"isIncomplete": False, "items": [{"label": "q", "detail": r.choice(TYPES), "sortText": None, "documentation": {"kind": "markdown", "value": hover_text(r, True, size)}}]})
    if kind == "diagnostics": return d(msg(method="textDocument/publishDiagnostics", params={"uri": "file:///a.rs", "diagnostics": [{"range": rng(r), "message": "expected `%s`" % r.choice(TYPES)}]}))
    raise ValueError(kind)

CT = b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"
def frame(b, form="plain"):
    n = str(len(b)).encode()
    cl = b"Content-Length: " + n + b"\r\n"
    h = {"plain": cl, "type-after": cl + CT, "type-before": CT + cl, "lower": b"content-length: " + n + b"\r\n", "upper": b"CONTENT-LENGTH: " + n + b"\r\n",
         "nospace": b"Content-Length:" + n + b"\r\n", "spaces": b"Content-Length:   " + n + b"  \r\n", "extra": b"X-Trace: 7:a b\r\n" + cl, "charset": cl + b"Content-Type: application/vscode-jsonrpc; charset=utf8\r\n"}[form]
    return h + b"\r\n" + b
def tail(kind, r):
    ok = frame(b'{"jsonrpc":"2.0","method":"after"}')
    return {"no-length": b"X-Foo: bar\r\n\r\n" + ok, "bad-length": b"Content-Length: ten\r\n\r\n{}" + ok, "negative": b"Content-Length: -5\r\n\r\nhello" + ok,
            "overflow": b"Content-Length: 99999999999999999999999\r\n\r\nhello" + ok, "garbage": b"\x00\xffhello world\nthis is no header \xe9" + b"z" * r.randrange(20000), "blank-first": b"\r\n" + ok}[kind]

def text_id(s): return s if len(s) < 60 and all(32 <= ord(c) < 127 and c not in '"\\' for c in s) else "%d:%s" % (len(s), hashlib.sha1(s.encode("utf-8", "surrogatepass")).hexdigest()[:16])
class Num(str): pass
def parse(b):
    try: return json.loads(b.decode("utf-8"), parse_int=Num, parse_float=Num, parse_constant=lambda x: 1 / 0)
    except Exception: return None
def num(s):
    f = float(s)  # numbers of a message are doubles
    return "n:%s" % (Fraction(s) if abs(f) < 1e18 and Fraction(s).denominator == 1 else repr(f))
def leaves(o, sent=None):
    """parts of a message: {p: place, v: value, t: may be rewritten, stay: must stay in its place}"""
    out = []
    res = o.get("result") if isinstance(o, dict) else None
    sres = sent.get("result") if isinstance(sent, dict) else None
    free = {}
    def hints(h, s, p):
        lab = h.get("label")
        if isinstance(lab, list) and (any(isinstance(x, dict) and isinstance(x.get("value"), str) and x["value"].startswith("Quantity") for x in lab)): free[p + ".label"] = False
        e = h.get("textEdits")
        if isinstance(e, list):
            for i, x in enumerate(e):
                t = x.get("newText") if isinstance(x, dict) else None
                if isinstance(t, str) and ("Quantity<" in t or "unit!(" in t): free["%s.textEdits[%d].newText" % (p, i)] = True
            if isinstance(s, dict) and "textEdits" not in s and isinstance(s.get("label"), list) and any(x.get("value") == "Quantity" for x in s["label"]): free[p + ".textEdits"] = False
    if isinstance(res, dict) and "contents" in res:
        c = res["contents"]
        for p, t in [(".contents.value", c.get("value") if isinstance(c, dict) else None), (".contents", c)] + [x for i, e in enumerate(c if isinstance(c, list) else []) for x in ((".contents[%d].value" % i, e.get("value") if isinstance(e, dict) else None), (".contents[%d]" % i, e))]:
            if isinstance(t, str) and ("Quantity<" in t): free[".result" + p] = True
    if isinstance(res, dict): hints(res, sres, ".result")
    if isinstance(res, list):
        for i, h in enumerate(res):
            if isinstance(h, dict): hints(h, sres[i] if isinstance(sres, list) and i < len(sres) else None, ".result[%d]" % i)
    def walk(x, p, fr):
        if p in free: fr = (free[p],)
        if isinstance(x, dict) and x:
            for k, v in x.items(): walk(v, p + "." + text_id(k), fr)
        elif isinstance(x, list) and x:
            for i, v in enumerate(x): walk(v, "%s[%d]" % (p, i), fr)
        else:
            v = num(x) if isinstance(x, Num) else "s:" + text_id(x) if isinstance(x, str) else {True: "true", False: "false", None: "null"}[x] if x in (True, False, None) and not isinstance(x, (dict, list)) else "{}" if isinstance(x, dict) else "[]"
            out.append({"p": p, "v": v, "t": fr is not None, "stay": bool(fr and fr[0])})
    walk(o, "", None)
    return out
def ident(b): return "%d:%s" % (len(b), hashlib.sha1(b).hexdigest()[:16])
