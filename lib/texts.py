"""Reading printed texts into the token sequences of the specification."""
import re
from common import *
WORD = re.compile(r"[^\W\d_][^\W\d]*|_[^\W\d]+")
def unit_tokens(s):
    """tokens of spec/UnitExpr.tla for a unit text"""
    s = unreal_mu(s); out = []; i = 0
    while i < len(s):
        c = s[i]
        if c.isspace(): i += 1; continue
        m = re.compile(r"((?:\{mu\}|\{Ohm\}|[A-Za-z_])+)(\d*)").match(s, i)
        if m:
            n = int(m[2]) if m[2] else 1
            out.append({"k": "id", "w": m[1], "n": n, "x": m[0]} if n < 2 ** 31 else {"k": "junk", "x": m[0]}); i = m.end(); continue
        m = re.compile(r"\d+").match(s, i)
        if m:
            n = int(m[0]); out.append({"k": "int", "v": n, "x": m[0]} if n < 2 ** 31 else {"k": "junk", "x": m[0]}); i = m.end(); continue
        out.append({"k": "op", "x": c} if c in "*/.^()-+," else {"k": "junk", "x": c if ord(c) < 128 else "?"}); i += 1
    return out
def unreal_mu(s): return unreal(s.replace("\u03bc", "\u00b5") if "\u00b5" == real("{mu}") else s.replace("\u00b5", "\u03bc")).replace("\u2126", "{Ohm}")
JT = re.compile(r'\s*(?:([{}\[\]:,])|("(?:[^"\\]|\\.)*")|(-?(?:0|[1-9]\d*)(?:\.\d+)?(?:[eE][+-]?\d+)?)|(true|false|null)|(\S))')
def json_tokens(s):
    out = []
    for m in JT.finditer(s):
        if m[1]: out.append({"k": "p", "x": m[1]})
        elif m[2]: c = json.loads(m[2]); out.append({"k": "str", "x": "s", "c": c, "u": unit_tokens(c)})
        elif m[3]: out.append({"k": "num", "x": m[3], "v": jfloat(float(m[3]))})
        elif m[4]: out.append({"k": "lit", "x": m[4]})
        elif m[5]: out.append({"k": "junk", "x": m[5]})
    return out
SUP = dict(zip("⁰¹²³⁴⁵⁶⁷⁸⁹", "0123456789"))
def sup(s): return int("".join("-" if c == "⁻" else SUP[c] for c in s))
def decimal(s):
    """text of a decimal number -> exact value {s, m, e} and decimals printed"""
    m = re.fullmatch(r"([+-]?)(\d+)(?:\.(\d+))?(?:[eE]([+-]?\d+))?", s)
    if not m: return None
    p = len(m[3] or ""); j = jint(int(m[2] + (m[3] or "")))
    return {"s": -j["s"] if m[1] == "-" else j["s"], "m": j["m"], "e": int(m[4] or 0) - p}, p
NAME = re.compile(r"((?:[^\W\d⁰¹²³⁴⁵⁶⁷⁸⁹]|_|°)+)|(-?\d+(?:\.\d+)?)|(⁻?[⁰¹²³⁴⁵⁶⁷⁸⁹]+)|(\s+)|(.)", re.S)
def name_tokens(s):
    """tokens of spec/Display.tla for a displayed unit"""
    out = []
    for m in NAME.finditer(unicode_units(s)):
        if m[1]:
            w = m[1]; out.append({"k": "w", "w": unreal_mu(w)})
        elif m[2]: out.append({"k": "dec", "x": decimal(m[2])[0]})
        elif m[3]: out.append({"k": "sup", "n": sup(m[3])} if re.fullmatch("⁻?[⁰¹²³⁴⁵⁶⁷⁸⁹]{1,7}", m[3]) else {"k": "op", "x": "?"})
        elif m[4]: continue
        else: out.append({"k": "op", "x": {"·": "{dot}"}.get(m[5], m[5] if ord(m[5]) < 128 else "{?}")})
    return out
def unicode_units(s): return s
LIST = r" \[((?:[^\W\d⁰¹²³⁴⁵⁶⁷⁸⁹]+|[235])⁻?[⁰¹²³⁴⁵⁶⁷⁸⁹]+(?:, (?:[^\W\d⁰¹²³⁴⁵⁶⁷⁸⁹]+|[235])⁻?[⁰¹²³⁴⁵⁶⁷⁸⁹]+)*)\]"
QTEXT = re.compile(r"(?:(\S+) )?Quantity<(.*?)(?: \(([A-Z][A-Za-z ]*)\))?(?:" + LIST + ")?(?:" + LIST + r")?, ([a-z]+[0-9]*)(?:, ([^<>]+))?>", re.S)
def entries(s):
    out = []
    for x in (s or "").split(", "):
        m = re.fullmatch(r"(.+?)(⁻?[⁰¹²³⁴⁵⁶⁷⁸⁹]+)", x)
        if m: out.append({"key": {"π": "{pi}"}.get(m[1], m[1]), "n": sup(m[2])})
    return out
def quantity_text(s):
    """[value] Quantity<name [(dimension)] [[scales]] [[exponents]], type[, brand]>"""
    m = QTEXT.fullmatch(s)
    if not m: return None
    a, b = entries(m[4]), entries(m[5])
    if m[4] and not m[5] and a[0]["key"] not in ("2", "3", "5", "{pi}"): a, b = [], a
    v = decimal(m[1]) if m[1] else None
    return {"shown": {"k": "dec", "x": v[0]} if v else {"k": m[1] or "none"}, "name": m[2], "dim": m[3] or "", "ss": a, "ds": b, "ty": m[6], "br": (m[7] or "()").split("::")[-1].strip()}
