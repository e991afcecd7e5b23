"""C17: rewritten texts."""
import random
from common import *
from texts import name_tokens, unit_tokens, sup
from c16 import build_proxy

def build(chk):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    tgt = os.path.join(VERIF, "target-lsp")
    for m, b in ((VERIF + "/harness/lsp", "lsptexts"), (REPO + "/whippyunits-pretty", "whippyunits-pretty")):
        p = subprocess.run(["cargo", "build", "--offline", "--manifest-path", m + "/Cargo.toml", "--bin", b, "--target-dir", tgt], env=env, capture_output=True, text=True)
        if p.returncode: raise ToolError("%s does not build:\n" % b + p.stderr[-3000:])
    chk.log("built")
    return [os.path.join(tgt, "debug", b) for b in ("lsptexts", "whippyunits-pretty")]

# ---- written pieces
def edges(s):
    for k, v in EDGES.items(): s = s.replace(k, v)
    return s
def ptext(p):
    if p["k"] == "x": return edges(real(p["x"]))
    return real(p["head"]) + ("" if p["omit"] else p["sep"] + text(p["t"])) + (p["sep"] + real(p["b"]) if p["b"] else "") + ">"
def text(ps): return "".join(ptext(p) for p in ps)
# ---- reading rewritten texts
def arguments(s, pos):
    """top-level arguments from just after an opening bracket, and where the closing one is passed"""
    out, start, depth, prev = [], pos, 0, " "
    for i in range(pos, len(s)):
        c = s[i]
        if c in "<([": depth += 1
        elif c in ">)]" and not (c == ">" and prev == "-"):
            if depth == 0: return (out + [s[start:i].strip()], i + 1) if c == ">" else None
            depth -= 1
        elif c == "," and depth == 0: out.append(s[start:i].strip()); start = i + 1
        prev = c
    return None
ENTRY = r"(?:[^\W\d⁰¹²³⁴⁵⁶⁷⁸⁹ˀ]+|[235])(?:⁻?[⁰¹²³⁴⁵⁶⁷⁸⁹]+|ˀ)"
LIST = r"(?: \[(%s(?:, %s)*)\])?" % (ENTRY, ENTRY)
SHOWN = re.compile(r"(.*?)(?: \(([A-Z][A-Za-z ]*)\))?" + LIST + LIST, re.S)
def entries(s):
    out = []
    for x in (s.split(", ") if s else []):
        m = re.fullmatch(r"(.+?)(⁻?[⁰¹²³⁴⁵⁶⁷⁸⁹]+|ˀ)", x)
        out.append({"key": {"π": "{pi}"}.get(m[1], m[1]), "q": m[2] == "ˀ", "n": 0 if m[2] == "ˀ" else sup(m[2])})
    return out
def marks(ts): return [{"k": "op", "x": "{?}"} if t.get("x") == "\0" else t for t in ts]
class Off(Exception): pass
def align(ps, out, pos, o, need=None):
    """matches the pieces with the output from pos on; o: what is recorded"""
    spans = []
    for p in ps:
        start = pos
        if p["k"] == "x":
            t = ptext(p)
            if not out.startswith(t, pos): raise Off("%r expected at %d: %r" % (t, pos, out[pos:pos + 80]))
            pos += len(t)
            if p.get("fence"): pos = raw_section(out, pos, o)
        else:
            e = {"k": "q", "need": o["need"] or need or p["need"], "d": p["d"], "s": p["s"], "ud": p["ud"], "us": p["us"], "verbose": o["verbose"],
                 "ts": [], "ss": [], "ds": [], "ty": True, "br": True, "written": ptext(p)}
            o["events"].append(e)
            head = real(p["head"])
            if out.startswith(head, pos):
                e["res"] = "kept"; pos += len(head)
                rest = ([] if p["omit"] else [{"k": "x", "x": p["sep"]}] + p["t"]) + [{"k": "x", "x": (p["sep"] + p["b"] if p["b"] else "") + ">"}]
                pos, _ = align(rest, out, pos, o, e["need"])
            else:
                if not out.startswith("Quantity<", pos): raise Off("a type expected at %d: %r" % (pos, out[pos:pos + 80]))
                a = arguments(out, pos + 9)
                if a is None or len(a[0]) not in (2, 3): raise Off("unreadable type at %d: %r" % (pos, out[pos:pos + 80]))
                args, end = a
                e["res"], e["shown"], o["changed"] = "shown", out[pos:end], True
                m = SHOWN.fullmatch(args[0])
                a, b = entries(m[3]), entries(m[4])
                if m[3] and not m[4] and a[0]["key"] not in ("2", "3", "5", "{pi}"): a, b = [], a
                e["ts"], e["ss"], e["ds"] = marks(name_tokens(m[1].replace("ˀ", "\0"))), a, b
                if p["omit"]: e["ty"] = args[1] == "f64"
                else:
                    try:
                        stop, _ = align(p["t"], args[1], 0, o, e["need"]); e["ty"] = stop == len(args[1])
                    except Off: e["ty"] = False
                e["br"] = (args[2] if len(args) == 3 else "()") == (real(p["b"]) or "()")
                pos = end
        spans.append((start, pos))
    return pos, spans
HEAD = "\n\n---\nRaw:\n\n```rust\n"
def raw_section(out, pos, o):
    if not (o["raw"] and o["changed"] and o["shownraw"] == "none" and out.startswith(HEAD, pos)): return pos
    end = out.find("\n```", pos + len(HEAD))
    if end < 0: return pos
    got = out[pos + len(HEAD):end]
    o["shownraw"] = "same" if got and got in o["text"] and (not o["decl"] or got == o["decl"]) else "other"
    return end + 4
def observer(r, verbose, raw, whole, need=None):
    return {"verbose": verbose, "raw": raw, "text": whole, "decl": "", "shownraw": "none", "changed": False, "events": [], "need": need}

def judge_text(r, key, ps, out, o, wantraw, suffix=None):
    """events of one rewritten text; suffix: the raw text is appended in this form"""
    ev = {"k": "text", "panic": out == {"panic": True}, "aligned": False, "raw": "none", "wantraw": wantraw, "changed": False, "text": o["text"], "out": out}
    if not ev["panic"]:
        try:
            pos, spans = align(ps, out, 0, o)
            if suffix is not None and pos < len(out) and o["raw"] and o["changed"]:
                o["shownraw"] = "same" if out[pos:] == suffix else "other"; pos = len(out)
            ev["aligned"] = pos == len(out)
            if not ev["aligned"]: ev["note"] = "more follows: %r" % out[pos:pos + 80]
        except Off as x: ev["note"] = str(x)
        ev["raw"], ev["changed"] = o["shownraw"], o["changed"]
    return [dict(e, key=key) for e in [ev] + (o["events"] if ev["aligned"] else [])]

# ---- hints
def parts_of(ps, rnd):
    parts = []
    for n, p in enumerate(ps):
        t = ptext(p)
        if p["k"] == "x":
            if t: parts.append([t, {"tooltip": {"n": rnd.randrange(1000)}} if rnd.random() < .3 else {}])
            continue
        for m in re.finditer(r"\w+|\W+", t):
            w = m[0]; name = w[0].isalpha() or w[0] == "_" and len(w) > 1
            parts.append([w, {"location": {"uri": "file:///%s.rs" % n, "range": {"start": {"line": rnd.randrange(99), "character": 1}, "end": {"line": 100, "character": 9}}}} if name and rnd.random() < .8 else {}])
    fixed = ("Quantity", "Scale", "Dimension")
    out = []
    for w, x in parts:
        if out and not x and not out[-1][1] and w not in fixed and out[-1][0] not in fixed and rnd.random() < .7: out[-1][0] += w
        else: out.append([w, x])
    return [dict({"value": w}, **x) for w, x in out]
def hint_of(h):
    rnd = random.Random(h["cut"]); t = text(h["ps"])
    pos = {"line": rnd.randrange(50), "character": rnd.randrange(90)}
    hint = {"kind": 1, "paddingLeft": False, "label": t if h["plain"] else parts_of(h["ps"], rnd), "data": {"hash": str(rnd.randrange(10 ** 9)), "x": [1, None, "Quantity"]}}
    if h["position"]: hint["position"] = pos
    at = lambda n: {"start": {"line": 3, "character": n}, "end": {"line": 3, "character": n}}
    ty = {"range": at(7), "newText": t}
    if h["edits"]: hint["textEdits"] = [[ty], [{"range": at(2), "newText": "("}, ty, {"range": at(9), "newText": ")"}], [{"range": at(1), "newText": "dyn "}], [dict(ty, newText=t.replace("Quantity<", "whippyunits::Quantity<", 1))]][h["edits"] - 1]
    return hint
def anchors(parts, spans, ps):
    """what is attached to the parts, and where"""
    out, pos = [], 0
    for part in parts:
        rest = {k: v for k, v in part.items() if k != "value"}
        if rest:
            for n, (a, b) in enumerate(spans):
                if a <= pos < b and (ps[n]["k"] == "x" or pos == a): out.append((n, pos - a, json.dumps(rest, sort_keys=True)))
        pos += len(part["value"])
    return out
def judge_hint(r, key, h, src, got, resolved):
    if got == {"panic": True}: return [{"key": key, "k": "text", "panic": True, "aligned": False, "raw": "none", "wantraw": False, "changed": False, "hint": src}]
    ps, whole = h["ps"], text(h["ps"])
    if h["plain"]: need, out = "may", got["label"]
    else: need, out = None, "".join(p["value"] for p in got["label"])
    o = observer(r, False, False, whole, need)
    evs = judge_text(r, key, ps, out, o, False)
    if not evs[0]["aligned"]: return evs
    ev = {"key": key, "k": "hint", "anchors": True, "rest": True, "edits": True, "hint": src, "got": got}
    if not h["plain"]:
        def spans(out): return align(ps, out, 0, observer(r, False, False, whole))[1]
        ev["anchors"] = anchors(src["label"], spans(whole), ps) == anchors(got["label"], spans(out), ps)
    ev["rest"] = all(src.get(k) == got.get(k) for k in set(src) | set(got) if k not in ("label", "textEdits"))
    a, b = src.get("textEdits"), got.get("textEdits")
    if not a and b and len(b) == 1 and resolved and "position" in src and b[0].get("range") == {"start": src["position"], "end": src["position"]} and set(b[0]) == {"range", "newText"}:
        a = [{"range": b[0]["range"], "newText": None}]
    ev["edits"] = (a or []) == (b or []) or len(a or []) == len(b or []) and all(dict(x, newText=0) == dict(y, newText=0) for x, y in zip(a, b))
    evs.append(ev)
    for x, y in zip(a or [], b or []):
        if x["newText"] == y["newText"]: continue
        q = next(p for p in ps if p["k"] == "q")
        single = resolved and len(ps) == 2 and ptext(ps[0]) == ": " and (x["newText"] is None or "Quantity" in x["newText"])
        e = {"key": key, "k": "edit", "single": single, "ty": False, "br": False, "ts": [{"k": "junk", "x": "?"}], "d": q["d"], "s": q["s"], "ud": q["ud"], "us": q["us"], "was": ptext(q), "edit": y["newText"]}
        if y["newText"].startswith(": unit!(") and y["newText"].endswith(")"):
            got_args = arguments(y["newText"][8:-1] + ">", 0)
            if got_args and 1 <= len(got_args[0]) <= 3:
                args = got_args[0]
                e["ty"] = (args[1] if len(args) > 1 else "f64") == ("f64" if q["omit"] else text(q["t"]))
                e["br"] = (args[2] if len(args) > 2 else "()") == (real(q["b"]) or "()")
                e["ts"] = unit_tokens(args[0])
        evs.append(e)
    return evs

def check(chk):
    tool, pretty = build(chk)
    n = 30000 if chk.thorough else 3000
    reqs, _ = chk.tlc("TextsGen", "CONSTANTS Seed = %d NTexts = %d\nINIT Init\nNEXT Next\n" % (chk.seed, n))
    reqs.sort(key=lambda r: r["n"])
    FN = {"hoverless": "hover"}
    lines, plan = [], []
    for r in reqs:
        f = r["f"]; q = {"f": FN.get(f, f), "verbose": r["verbose"], "raw": r["raw"]}
        if f == "pretty": continue
        if f in ("hint", "hints"):
            src = [hint_of(h) for h in r["hints"]]; q["hint"] = src[0] if f == "hint" else src; r["src"] = src
        elif f == "output": q["text"] = "".join(text(l["ps"]) + l["end"] for l in r["lines"])
        elif f == "garbage": q["f"] = r["of"]; q["text"] = text(r["ps"])
        else: q["text"] = text(r["ps"])
        if f == "line" and "\n" in q["text"]: continue
        lines.append(json.dumps(q)); plan.append(r)
    try: p = subprocess.run([tool], input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=240)
    except subprocess.TimeoutExpired as x:
        n = len((x.stdout or b"").decode("utf-8", "replace").splitlines())
        chk.add_bad("request:%d" % n, "the text processing does not end", {"request": lines[min(n, len(lines) - 1)]}); return
    outs = [json.loads(l) for l in p.stdout.split("\n") if l]
    if len(outs) != len(lines):
        chk.add_bad("request:%d" % len(outs), "the text processing does not end normally (%s)" % p.returncode, {"request": lines[len(outs)], "stderr": p.stderr[-1500:]}); return
    events = []
    for r, q, out in zip(plan, map(json.loads, lines), outs):
        f = r["f"]; key = "%s:%s" % (f, hashlib.sha1(json.dumps(q, sort_keys=True).encode()).hexdigest()[:12])
        if f == "garbage":
            of = r["of"]; t = q["text"]; plain = "Scale" not in t and "impl<" not in t
            events.append({"key": key, "k": "garbage", "of": of, "text": t, "out": out, "panic": out == {"panic": True},
                           "same": out == t if of != "extract" else isinstance(out, str) and out in t, "must": plain or of == "extract"})
        elif f in ("hint", "hints"):
            got = [out] if f == "hint" or out == {"panic": True} else out
            for h, src, g in zip(r["hints"], r["src"], got): events += judge_hint(r, key, h, src, g, f == "hint")
        elif f == "output": events += by_line(r, key, out, q["text"])
        else:
            o = observer(r, q["verbose"] and f != "inlay", q["raw"] and f != "inlay", q["text"])
            ps = r["ps"]
            if f in ("hover", "original"):
                ps = [dict(p, fence=p["k"] == "x" and p["x"] == "\n```") for p in ps]
                if r["decl"]:
                    i = next(i for i, p in enumerate(ps) if p["k"] == "x" and "```rust" in p["x"])
                    if "ignore" not in ps[i]["x"] and ps[i + 1]["x"] == "let x: ": o["decl"] = text(ps[i + 1:i + 3])
                generic = any(p["k"] == "x" and "T = f64" in p["x"] for p in ps)
                events += judge_text(r, key, ps, out, o, q["raw"] and bool(o["decl"]) and not generic)
            else:
                events += judge_text(r, key, ps, out, o, q["raw"] and f in ("types", "line"), "\n\nRaw:\n\n" + q["text"] if f in ("types", "line") else None)
    todo = [r for r in reqs if r["f"] == "pretty"]
    scratch = chk.path("in"); os.makedirs(scratch, exist_ok=True)
    slow = []
    def filter_text(r):
        t = "".join(text(l["ps"]) + ("\udcff\udcc3(" if l["bad"] else "") + l["end"] for l in r["lines"])
        data = t.encode("utf-8", "surrogateescape")
        args = [pretty] + (["-v"] if r["verbose"] else []) + (["-r"] if r["raw"] else [])
        if r["decl"]:
            fn = os.path.join(scratch, "%d.txt" % r["n"])
            with open(fn, "wb") as fh: fh.write(data)
            args += ["-f", fn]; data = b""
        if len(slow) >= 8: return t, None
        try: p = subprocess.run(args, input=data, capture_output=True, timeout=30, env=dict(os.environ, RUST_LOG="off"))
        except subprocess.TimeoutExpired: slow.append(r["n"]); p = subprocess.CompletedProcess(args, -9, b"", b"")
        return t, p
    with ThreadPoolExecutor(NCPU) as ex:
        for r, (t, p) in zip(todo, ex.map(filter_text, todo)):
            if p is None: continue
            key = "pretty:%s" % hashlib.sha1(t.encode("utf-8", "surrogateescape")).hexdigest()[:12]
            events += by_line(r, key, p.stdout.decode("utf-8", "surrogateescape") if p.returncode == 0 else {"panic": True}, t)
    for e in events: e["info"] = json.dumps({k: e.pop(k) for k in ("text", "out", "written", "shown", "note", "hint", "got", "was", "edit") if k in e})
    chk.notes["requests"] = len(reqs)
    chk.notes["types"] = {k: sum(1 for e in events if e["k"] == "q" and e["res"] == k) for k in ("shown", "kept")}
    chk.notes["inserted"] = sum(1 for e in events if e["k"] == "edit")
    chk.validate("TextsCheck", events)

def by_line(r, key, out, whole):
    """a text of lines: where the raw form is asked for, it follows each changed line"""
    ps = []; o = observer(r, r["verbose"], False, whole)
    ev = {"key": key, "k": "text", "panic": out == {"panic": True}, "aligned": False, "raw": "none", "wantraw": r["raw"], "changed": False, "text": whole, "out": out}
    if ev["panic"]: return [ev]
    pos, raws, events = 0, [], []
    try:
        for l in r["lines"]:
            o = observer(r, r["verbose"], False, whole, "may" if l.get("bad") and r["f"] == "pretty" else None)
            bad = "\udcff\udcc3(" if l["bad"] and r["f"] == "pretty" else ""
            pos, _ = align(l["ps"] + [{"k": "x", "x": bad}], out, pos, o)
            suffix = "\n\nRaw:\n\n" + text(l["ps"])
            if r["raw"] and o["changed"]:
                raws.append("same" if out.startswith(suffix, pos) else "none"); pos += len(suffix) if raws[-1] == "same" else 0
            pos, _ = align([{"k": "x", "x": l["end"]}], out, pos, o)
            events += o["events"]; ev["changed"] |= o["changed"]
        ev["aligned"] = pos == len(out)
        ev["raw"] = "none" if "none" in raws or not raws else "same"
    except Off as x: ev["note"] = str(x)
    return [ev] + ([dict(e, key=key) for e in events] if ev["aligned"] else [])
