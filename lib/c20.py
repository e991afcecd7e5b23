"""C20: the argument of a macro is an ordinary expression of the caller."""
from rescale import *
from accept import accepted_stable

# A crate that depends on whippyunits alone; every helper's name begins with zz, which no generated name does.
HEADM = RT.replace("pub fn js(s: &str) -> String { serde_json::to_string(s).unwrap() }", "") + "mod zzp { use super::*;" + probe() + "}\n" + r'''
use zzp::{Probe, show as zz_show};
fn zz_tok<N: Num>(n: N) -> String { n.tok() }
use whippyunits::{quantity, value, rescale, unit, from_json, from_string, define_unit_declarators};
define_unit_declarators!(zzl, Gram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);
define_unit_declarators!(zzb, ZzB, Kilogram, Kilometer, Minute, Ampere, Kelvin, Mole, Candela, Radian);
mod zzd { pub mod zzu { use whippyunits::define_unit_declarators;
    define_unit_declarators!(zzds, Gram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);
    define_unit_declarators!(zzdb, ZzDB);
    define_unit_declarators!(zzdg, ZzDG, Gram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);
    pub fn zz_scales(x: f64) -> String { crate::zz_show(zzds::quantity!(x, km)) }
    pub fn zz_brand(x: f64) -> String { crate::zz_show(zzdb::quantity!(x, km)) }
    pub fn zz_both(x: f64) -> String { crate::zz_show(zzdg::quantity!(x, km)) }
} }
thread_local! { static ZZLOG: std::cell::RefCell<Vec<i32>> = Default::default(); static ZZJSON: std::cell::Cell<bool> = Default::default(); }
fn zz_note(n: i32) { ZZLOG.with(|l| l.borrow_mut().push(n)); }
pub trait ZzV: Copy { fn zz_of(n: i32) -> Self; fn zz_num(self) -> i32; }
macro_rules! zzv { ($($t:ty)*) => { $(impl ZzV for $t { fn zz_of(n: i32) -> Self { n as $t } fn zz_num(self) -> i32 { self as i32 } })* } }
zzv!(f64 f32 i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
impl<const M: i16, const L: i16, const T: i16, const I: i16, const K: i16, const NN: i16, const J: i16, const A: i16, const P2: i16, const P3: i16, const P5: i16, const PI: i16, ZT: ZzV, ZB> ZzV for zzp::Q<M, L, T, I, K, NN, J, A, P2, P3, P5, PI, ZT, ZB> where Self: Copy { fn zz_of(n: i32) -> Self { Self::new(ZT::zz_of(n)) } fn zz_num(self) -> i32 { self.unsafe_value.zz_num() } }
impl ZzV for &'static str {
    fn zz_of(n: i32) -> Self { Box::leak(if ZZJSON.with(|j| j.get()) { format!("{{\"value\":{},\"unit\":\"{}\"}}", n, zz_unit(n)) } else { format!("{} {}", n, zz_unit(n)) }.into_boxed_str()) }
    fn zz_num(self) -> i32 { self.trim_start_matches("{\"value\":").split(|c| c == ' ' || c == ',').next().unwrap().parse().unwrap() }
}
fn zz_json(on: bool) { ZZJSON.with(|j| j.set(on)); }
// every fourth text does not do
fn zz_unit(n: i32) -> &'static str { if n % 4 == 0 { "kn." } else { "km" } }
fn zz_sum<X: ZzV>(xs: &[X]) -> X { X::zz_of(xs.iter().map(|x| x.zz_num()).sum()) }
fn zz_as<X: ZzV>(n: i32) -> X { X::zz_of(n) }
fn zz_lit<X: ZzV>(n: i32) -> X { X::zz_of(n) }
fn zz_tick<X: ZzV>(n: i32) -> X { zz_note(n); X::zz_of(n) }
fn zz_flag(n: i32, on: bool) -> bool { zz_note(n); on }
fn zz_twice<X: ZzV>(n: i32, x: X) -> X { zz_note(n); X::zz_of(2 * x.zz_num()) }
fn zz_same<X>(n: i32, x: X) -> X { zz_note(n); x }
fn zz_try<X: ZzV>(n: i32, on: bool) -> Result<X, X> { zz_note(n); if on { Err(X::zz_of(n)) } else { Ok(X::zz_of(n)) } }
fn zz_out<E: std::fmt::Debug, P: Probe>(r: Result<P, E>) -> String where P::V: Num { match r { Ok(q) => zz_show(q), Err(e) => format!("error {:?}", e) } }
fn zz_run<X: ZzV>(k: usize, tag: &str, json: bool, f: impl FnOnce() -> Result<String, X>) {
    ZZJSON.with(|j| j.set(json)); ZZLOG.with(|l| l.borrow_mut().clear());
    let r = match guard(f) { None => "value panic".into(), Some(Ok(s)) => format!("value {}", s), Some(Err(x)) => format!("left {}", x.zz_num()) };
    println!("{}\t{}\t{:?}\t{}", k, tag, ZZLOG.with(|l| l.borrow().clone()), r);
}
'''
def branded(j): return j["site"]["m"] in ("qb", "vb")
def brand(j): return j["brand"] if branded(j) else "()"
def number(n, t):
    s = "%d%s_%s" % (n, ".0" if t[0] == "f" else "", t)
    return s

def text(e, j, top=False):
    k, s, t = e["k"], j["s"], j["site"]["t"]
    base = j["site"]["base"]
    sub = lambda x: text(x, j)
    def arg(x):                       # an operand
        r = sub(x)
        return r if x["k"] in ("lit", "tick", "var", "twice", "same", "try") else "(%s)" % r
    if k == "lit": return number(e["n"], t) if s == "n" else "zz_lit::<ZzX>(%d)" % e["n"]
    if k == "tick": return "zz_tick::<ZzX>(%d)" % e["n"]
    if k == "var": return e["x"]
    if k == "cst": return "{ const %s: ZzX = %s; %s }" % (e["x"], const(e["n"], j), sub(e["b"]))
    if k == "flag": return "if zz_flag(%d, %s) { %s } else { %s }" % (e["n"], str(e["on"]).lower(), sub(e["a"]), sub(e["b"]))
    if k == "leave": return "if zz_flag(%d, %s) { return Err(%s) } else { %s }" % (e["n"], str(e["on"]).lower(), sub(e["a"]), sub(e["b"]))
    if k == "try": return "zz_try::<ZzX>(%d, %s)?" % (e["n"], str(e["on"]).lower())
    if k == "sum": return "zz_sum::<ZzX>(&[%s])" % ", ".join("zz_as::<%s>(%d)" % (n["x"], n["v"]) if e["of"] == "type" else n["x"] for n in e["xs"])
    if k == "neg": return "-" + arg(e["a"])
    if k == "ann": return "%s as %s" % (arg(e["a"]), j["alias"]) if e["r"] and s == "n" else "{ let zz_t: %s = %s; zz_t }" % (j["alias"], sub(e["a"]))
    if k == "via":
        if s == "n":
            q = "quantity!(%s, km, %s)" % (sub(e["a"]), t)
            return "value!(%s, km, %s)" % (q if e["r"] == 0 else "rescale!(%s, km, %s)" % (q, t), t)
        if e["r"] == 0 and not branded(j): return "rescale!(%s, %s, %s)" % (sub(e["a"]), base, t)
        b = ", " + brand(j) if branded(j) else ""
        return "quantity!(value!(%s, %s, %s%s), %s, %s%s)" % (sub(e["a"]), base, t, b, base, t, b)
    if k in ("twice", "same"): return "zz_%s(%d, %s)" % (k, e["n"], sub(e["a"]))
    if k == "let":
        a, b, x = sub(e["a"]), sub(e["b"]), e["x"]
        return ("{ let %s: ZzX = %s; %s }" % (x, a, b), "match %s { %s => %s }" % (arg(e["a"]), x, b), "(|%s: ZzX| %s)(%s)" % (x, b, a))[e["r"]]
    if k == "mul": return "%s * %s" % (arg(e["a"]), number(e["b"]["n"], t) if e["b"]["k"] == "lit" else "zz_tick::<%s>(%d)" % (t, e["b"]["n"]))
    if k == "add": return "%s + %s" % (arg(e["a"]), arg(e["b"]))
    raise ToolError(k)
def const(n, j):
    if j["s"] == "n": return number(n, j["site"]["t"])
    if j["s"] == "q": return "<ZzX>::new(%s)" % number(n, j["site"]["t"])
    u = "km" if n % 4 else "kn."
    return '"%s"' % ('{\\"value\\":%d,\\"unit\\":\\"%s\\"}' % (n, u) if j["site"]["m"] == "fj" else "%d %s" % (n, u))
def place(x, j):
    """the macro around the expression x, as a text"""
    m, u, t, b = j["site"]["m"], j["site"]["u"], j["site"]["t"], j["brand"]
    return {"qd": "zz_show(quantity!(%s, %s))" % (x, u), "qt": "zz_show(quantity!(%s, %s, %s))" % (x, u, t), "qb": "zz_show(quantity!(%s, %s, %s, %s))" % (x, u, t, b),
            "qa": "zz_show(quantity!(%s, %s, %s))" % (x, u, j["alias"]), "ld": "zz_show(zzl::quantity!(%s, %s))" % (x, u), "lt": "zz_show(zzl::quantity!(%s, %s, %s))" % (x, u, t),
            "lb": "zz_show(zzb::quantity!(%s, %s))" % (x, u), "vd": "zz_tok(value!(%s, %s))" % (x, u), "vt": "zz_tok(value!(%s, %s, %s))" % (x, u, t),
            "vb": "zz_tok(value!(%s, %s, %s, %s))" % (x, u, t, b), "rd": "zz_show(rescale!(%s, %s))" % (x, u), "rt": "zz_show(rescale!(%s, %s, %s))" % (x, u, t),
            "fj": "zz_out(from_json!(%s, %s))" % (x, u), "fs": "zz_out(from_string!(%s, %s, f64))" % (x, u)}[m]

def far(k, j):
    """the quantity! of a declarator module, used from another module, as the path given"""
    z = j["far"]; d = "zzd::zzu::zzd" + {"scales": "s", "brand": "b", "both": "g"}[z["decl"]]
    path = {"path-root": d, "path-crate": "crate::" + d, "path-super": "super::" + d, "path-renamed": "zzother", "imported": d[-4:]}[z["from"]]
    use = {"path-renamed": "use crate::%s as zzother; " % d, "imported": "use crate::%s; " % d}.get(z["from"], "")
    body = 'crate::zz_run::<f64>(%d, "e", false, || Ok(crate::zz_show(%s::quantity!(crate::zz_tick::<f64>(5), km)))); crate::zz_run::<f64>(%d, "p", false, || Ok(crate::zzd::zzu::zz_%s(5.0)));' % (k, path, k, z["decl"])
    j["src"] = "far:%s:%s" % (z["decl"], z["from"])
    if z["from"] == "path-root": return "fn f%d() { %s }" % (k, body)
    return "mod zzm%d { %spub fn run() { %s } } fn f%d() { zzm%d::run() }" % (k, use, body, k, k)

KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen union".split())
def found():
    """Names that sources of the macros declare or import: candidates for capturing a caller's."""
    lower, upper = set(), set()
    for top in ("proc-macros/src", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if not f.endswith(".rs"): continue
                s = open(os.path.join(d, f), encoding="utf-8").read()
                s = re.sub(r"//[^\n]*", "", s)
                if top == "src" and "macro_rules!" not in s: continue
                ws = re.findall(r"\b(?:let|let mut|const|static|type|struct|trait|enum|fn|as|use)\s+\(?([A-Za-z_][A-Za-z0-9_]*)", s)
                for u in re.findall(r"\buse\s+([^;]*);", s): ws += re.findall(r"[A-Za-z_][A-Za-z0-9_]*", u)
                for w in ws:
                    if w in KEYWORDS or w in PRIMITIVE or w.strip("_") == "" or w.lower().startswith("zz"): continue
                    (upper if w[0].isupper() or w[0] == "_" and not w[1].islower() else lower).add(w)
    return sorted(lower), sorted(upper)
PRIMITIVE = set(TYPES) | {"bool", "str", "char", "Ok", "Err", "Some", "None", "Result", "Copy", "Clone", "Debug", "PartialEq", "whippyunits", "core", "std", "alloc"}

def check(chk):
    lower, upper = found()
    with open(chk.path("names.ndjson"), "w") as f: f.write(json.dumps({"lower": lower, "upper": upper}) + "\n")
    jobs, _ = chk.tlc("MacroGen", "CONSTANTS Seed = %d N = %d NameFile = \"%s\"\nINIT Init\nNEXT Next\nINVARIANT Sane\n" % (chk.seed, 16000 if chk.thorough else 3000, chk.path("names.ndjson")))
    jobs.sort(key=lambda j: (j["c"], json.dumps(j["site"], sort_keys=True), json.dumps(j["e"])))
    base = Base(chk)
    base.USE = ["whippyunits"]
    lines = []
    for k, j in enumerate(jobs):
        if "far" in j: lines.append(far(k, j)); continue
        t, s = j["site"]["t"], j["s"]
        x = t if s == "n" else "&'static str" if s == "s" else "unit!(%s, %s, %s)" % (j["site"]["base"], t, brand(j))
        names = "".join({"const": lambda: "const %s: ZzX = %s; " % (n["x"], const(n["v"], j)), "let": lambda: "let %s: ZzX = zz_lit::<ZzX>(%d); " % (n["x"], n["v"]), "type": lambda: "type %s = ZzX; " % n["x"]}[n["k"]]() for n in j["names"])
        local = "#[derive(Clone, Copy, Debug, PartialEq)] struct %s; type %s = ZzX; " % (j["brand"], j["alias"])
        plain = ("(%s)" % number(j["v"], t) if s == "n" else "zz_lit::<ZzX>(%d)" % j["v"])
        js = "true" if j["site"]["m"] == "fj" else "false"
        j["src"] = place(text(j["e"], j), j)
        lines.append("fn f%d() { zz_json(%s); %stype ZzX = %s; %szz_run::<ZzX>(%d, \"e\", %s, || Ok(%s)); zz_run::<ZzX>(%d, \"p\", %s, || Ok(%s)); }" % (k, js, local, x, names, k, js, j["src"], k, js, place(plain, j)))
    acc = accepted_stable(chk, base, HEADM, lines)
    srcs = {}
    for s in range(NCPU):
        ks = [k for k in range(s, len(jobs), NCPU) if acc[k][0]]
        srcs["macro%d" % s] = HEADM + "".join(lines[k] + "\n" for k in ks) + "fn main() { quiet(); %s }" % " ".join("f%d();" % k for k in ks)
    got = {}
    for name, out in base.programs(srcs).items():
        if not isinstance(out, str):
            chk.add_bad(name, "the expressions do not build or run together", {"program": out.src, "errors": out.err[-2000:]}); continue
        for line in out.splitlines():
            k, tag, log, r = line.split("\t"); got[int(k), tag] = (json.loads(log), r.split(" ", 1))
    events = []
    for k, j in enumerate(jobs):
        e = {"key": j["src"] if len(j["src"]) < 400 else j["src"][:200] + " ... " + j["src"][-60:], "line": lines[k], "e": j["e"], "names": j["names"], "acc": acc[k][0], "log": [], "res": {"k": "value", "out": ""}, "ref": ""}
        if acc[k][0]:
            if (k, "e") not in got or (k, "p") not in got: continue
            e["log"], (kind, v) = got[k, "e"]
            e["res"] = {"k": "value", "out": v} if kind == "value" else {"k": "left", "v": int(v)}
            e["ref"] = got[k, "p"][1][1]
        else: e["err"] = acc[k][1]
        events.append(e)
    chk.notes["macros"] = {m: sum(1 for j in jobs if j["site"]["m"] == m) for m in sorted({j["site"]["m"] for j in jobs})}
    chk.notes["leaving"] = sum(1 for j in jobs if j["x"])
    chk.notes["panics in both"] = sum(1 for e in events if e["ref"] == "panic")
    chk.validate("MacroCheck", events)
