"""C19: every selection of features offers the same algebra, and nothing it does not name."""
from chains import *
from accept import accepted, accepted_stable
from resolve import resolve, real, unreal
import c01, c06, c08, c09, c18, rescale

# one program per kind of use; "fn" names are put in
USES = {
 "display": "fn N() { fn need<T: core::fmt::Display>(_: T) {} need(quantity!(1.0, m)); }",
 "debug": "fn N() { fn need<T: core::fmt::Debug>(_: T) {} need(quantity!(1, m, i32)); }",
 "debugfmt": "fn N(f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Debug::fmt(&quantity!(1.0, m), f) }",
 "fmt": "fn N() { let _ = quantity!(1.0, m).fmt(\"km\"); }",
 "serialize": "fn N() { fn need<T: serde::Serialize>(_: T) {} need(quantity!(1.0, m)); }",
 "deserialize": "fn N() { fn need<T: serde::de::DeserializeOwned>() {} need::<unit!(m)>(); }",
 "fromjson": "fn N(s: &str) { let _ = from_json!(s, m); }",
 "fromstring": "fn N(s: &str) { let _ = from_string!(s, m); }",
 "declare": "fn N() { let _: unit!(km / h, f32) = quantity!(1.0, km / h, f32); }".replace("km / h", "km / s"),
 "brand": "fn N() { let _: unit!(m, f64, B1) = quantity!(1.0, m, f64, B1); }",
 "method": "fn N() { let _: unit!(mm) = 1.0.millimeters(); let _ = 3i32.miles(); }",
 "literal": "#[culit::culit(whippyunits::default_declarators::literals)] fn N() { let _: unit!(mm) = 1.0mm; }",
 "unit": "fn N(_: unit!(kg * m / s^2)) {}",
 "value": "fn N() -> f64 { value!(quantity!(1.0, m), ft) }",
 "valueint": "fn N() -> i32 { value!(quantity!(1, km, i32), m, i32) }",
 "sum": "fn N(a: unit!(m), b: unit!(m)) -> unit!(m) { a + b - a % b }",
 "product": "fn N(a: unit!(m), b: unit!(s)) -> unit!(m / s) { a / b * 2.0 }",
 "assign": "fn N(mut a: unit!(m), b: unit!(m)) { a += b; a *= 2.0; a -= b; }",
 "compare": "fn N(a: unit!(m), b: unit!(m)) -> bool { a < b && a == b }",
 "rescale": "fn N(a: unit!(m)) -> unit!(km) { whippyunits::api::rescale(a) }",
 "rescaleint": "fn N(a: unit!(m, u8)) -> unit!(mm, u8) { whippyunits::api::rescale_u8(a) }",
 "rescalemacro": "fn N(a: unit!(m, i64)) -> unit!(mm, i64) { rescale!(a, mm, i64) }",
 "erase": "fn N(a: unit!(m), b: unit!(m)) -> f64 { (a / b).into() }",
 "angle": "fn N(a: unit!(rad / s)) -> unit!(1 / s) { a.into() }",
 "generic": "mod N { use whippyunits::*; use whippyunits::dimension_traits::define_generic_dimension; define_generic_dimension!(Velocity, Length / Time); pub fn f<V: Velocity>(_: V) {} pub fn g(v: unit!(m / s)) { f(v) } }",
 "local": "mod N { use whippyunits::define_unit_declarators; define_unit_declarators!(inner, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian); pub fn f() -> f64 { use inner::*; quantity!(1.0, mJ / s).unsafe_value } }",
 "localint": "mod N { use whippyunits::define_unit_declarators; define_unit_declarators!(inner_i, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian); pub fn f() -> i64 { use inner_i::*; quantity!(1, mJ, i64).unsafe_value } }",
 "copy": "fn N(a: unit!(m)) -> (unit!(m), unit!(m)) { let b = a; (a, b.clone()) }",
}
CRATE = "use whippyunits::*; use whippyunits::default_declarators::*; use core::option::Option::{self, *};\n"
BARE = "#![no_std]\n#![allow(unused)]\n"
PANIC = "#[panic_handler] fn on_panic(_: &core::panic::PanicInfo) -> ! { loop {} }\n"

def tags():
    return "".join("#[derive(Clone, Copy)] pub struct B%d;\n" % n for n in (1, 2))

def name(fs): return "_".join(fs) or "none"

def crates(chk, full, th):
    """lines that declare, read, rescale, combine and erase, from the other generators"""
    jobs, _ = chk.tlc("DeclareGen", "CONSTANTS Seed = %d Stride = 16\nINIT Init\nNEXT Next\n" % (chk.seed + 3))
    jobs.sort(key=lambda j: (j["w"], j["syn"]))
    at = resolve(chk, full, [j[k] for j in jobs for k in ("w", "name")])
    jobs = jobs[chk.seed % 5 :: 2 if th else 8]
    lines = []
    for j in jobs:
        attr = "#[culit::culit(whippyunits::default_declarators::literals)] " if j["syn"][0] == "l" else ""
        lines.append(attr + "pub fn N() { let _q = %s; }" % c06.expr(j, at[j["name"]]["plural"]))
    jobs, _ = chk.tlc("ReadoutGen", "CONSTANTS Seed = %d PerUnit = 3 NCompound = 120 NBad = 60\nINIT Init\nNEXT Next\n" % (chk.seed + 3))
    jobs.sort(key=lambda j: json.dumps(j["c"]))
    for k, j in enumerate(jobs[:: 1 if th else 3]):
        a, w, t2, b2 = c08.strip(j["ta"], k + 1), c08.strip(j["tb"], k + 2), j.get("t2", j["t"]), j.get("b2", j["b"])
        lines.append("pub fn N() { let q = quantity!(%s, %s, %s, %s); let _v = value!(q, %s, %s, %s); }" % (j["x"], a, j["t"], j["b"], w, t2, b2))
        if j["b"] == "()": lines.append("pub fn N() { let q = quantity!(%s, %s, %s); let _v = rescale!(q, %s, %s); }" % (j["x"], a, j["t"], w, t2))
    return lines

def check(chk):
    th = chk.thorough
    full = Base(chk)
    offers, _ = chk.tlc("FeaturesGen", "INIT Init\nNEXT Next\nINVARIANT Monotone\n")
    offers.sort(key=lambda o: (sorted(o["f"]), o["o"]))
    sets = sorted({tuple(sorted(o["f"])) for o in offers}, key=lambda s: (len(s), s))
    # those the documentation names, and the rest in the thorough tier
    sets = [s for s in sets if th or s in ((), ("alloc",), ("serde",), ("std",))]
    bases = {s: Base(chk, features=list(s)) for s in sets}
    events = []
    lines = crates(chk, full, th)
    chains, _ = chk.tlc("QuantityGen", "CONSTANTS Seed = %d NChains = %d ChainLen = 8 NWalks = 12 OnlySame = FALSE\nINIT Init\nNEXT Next\n" % (chk.seed + 5, 1200 if th else 200))
    chains.sort(key=lambda c: c["c"])
    ref = {t["key"]: t["ev"] for t in collect(chk, chains, full.programs(sources(chains, prefix="ref")), "chain")}
    hosted = accepted_stable(chk, full, CRATE + tags(), [l.replace("N()", "f%d()" % k, 1) for k, l in enumerate(lines)], prefix="hosted")
    for s in sets:
        b, fs = bases[s], list(s)
        mine = [o["o"] for o in offers if tuple(sorted(o["f"])) == s]
        for crate, head in (("hosted", ""), ("no_std", BARE)):
            src = [USES[o].replace("N", "n_" + o, 1).replace("N(", "n(") for o in mine]
            acc = accepted_stable(chk, b, head + CRATE + tags(), src, prefix="uses-%s-%s" % (name(fs), crate))
            events += [{"key": "%s:%s:%s" % (name(fs), crate, o), "ev": "offer", "f": fs, "o": o, "acc": a, "src": l, **({"err": w} if w else {})} for o, l, (a, w) in zip(mine, src, acc)]
        # the same programs in a crate without the standard library
        own = [l.replace("N()", "f%d()" % k, 1) for k, l in enumerate(lines)]
        bare = accepted_stable(chk, b, BARE + CRATE + tags(), own, prefix="bare-" + name(fs))
        events += [{"key": "no_std:%s:%s" % (name(fs), unreal(l)), "ev": "program", "one": x[0], "two": y[0], "src": l, **({"err": y[1]} if y[1] else {})} for l, x, y in zip(lines, hosted, bare)]
        if not s:
            # all of it becomes a library for a program that has no standard library to link
            src = chk.path("linked.rs")
            with open(src, "w") as f: f.write(BARE + PANIC + CRATE + tags() + "".join(l + "\n" for l, r in zip(own, bare) if r[0]))
            p = b.compile(src, chk.path("linked.a"), extra=["--crate-type", "staticlib", "-Cpanic=abort"])
            events.append({"key": "link", "ev": "link", "acc": p.returncode == 0, **({"err": "\n".join(compile_errors_with_lines(p.stderr))} if p.returncode else {})})
            if os.path.exists(chk.path("linked.a")): os.remove(chk.path("linked.a"))
        ts = collect(chk, chains, b.programs(sources(chains, prefix="chain-%s-" % name(fs))), "chain")
        if ts: chk.validate_traces("QuantityCheck", ts, name="QuantityCheck-" + name(fs))
        got = {t["key"]: t["ev"] for t in ts}
        events += [{"key": "%s:%s" % (name(fs), k), "ev": "history", "one": [e["o"] for e in ref[k]], "two": [e["o"] for e in got[k]]} for k in ref if k in got]
    chk.notes["selections"] = [name(list(s)) for s in sets]
    chk.notes["programs without std"] = "%d, %d accepted" % (len(lines), sum(h[0] for h in hosted))
    chk.validate("FeaturesCheck", events)
    chk.notes["parts"] = {}
    for s in sets:
        for mod, stride in PARTS[s] if s in PARTS else []:
            chk.log("-- %s with features %s" % (mod, name(list(s))))
            chk.notes["parts"]["%s:%s" % (name(list(s)), mod)] = c18.part(chk, mod, 1 if th else stride, dict(features=list(s)), name(list(s)))

# other properties' machines against these selections: one case in so many in the quick tier
PARTS = {(): [("c03", 16), ("c04", 16), ("c06", 12), ("c08", 10), ("c09", 12), ("c15", 10)],
         ("serde",): [("c10", 5), ("c11", 10), ("c12", 6)],
         ("alloc",): [("c13", 4)]}
