"""C05: the unit catalogue and the resolution of every written unit."""
import json
from common import *
from rust_rt import RT

SRC = RT + r'''
use whippyunits_core::*;
use whippyunits_core::dimension_exponents::*;
fn vec<T: std::fmt::Display>(v: &[T]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
fn main() {
    quiet();
    for d in Dimension::ALL {
        for u in d.units {
            println!("{{\"ev\":\"unit\",\"name\":{},\"syms\":[{}],\"d\":{},\"sc\":{},\"cf\":\"{}\",\"off\":\"{}\"}}", js(u.name),
                u.symbols.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), vec(&u.exponents.value().0), vec(&u.scale.0),
                u.conversion_factor.tok(), u.affine_offset.tok());
        }
        println!("{{\"ev\":\"dimension\",\"name\":{},\"d\":{},\"units\":[{}]}}", js(d.name), vec(&d.exponents.value().0),
            d.units.iter().map(|u| vec(&u.exponents.value().0)).collect::<Vec<_>>().join(","));
    }
    for p in SiPrefix::ALL {
        let mut s = vec![p.symbol()]; s.extend(p.alternative_symbols());
        println!("{{\"ev\":\"prefix\",\"name\":{},\"e\":{},\"syms\":[{}]}}", js(p.name()), p.factor_log10(),
            s.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    }
    println!("{{\"ev\":\"prefixes\",\"n\":{}}}", SiPrefix::ALL.len());
    for line in std::io::stdin().lines() {
        let line = line.unwrap();
        let w = line.as_str();
        // 1. as a unit expression
        let r = guard(|| match syn::parse_str::<UnitExpr>(w) {
            Ok(e) => { let r = e.evaluate_with_mode(EvaluationMode::Tolerant); let (cf, off) = calculate_unit_conversion_factors(&e);
                       Some((r.dimension_exponents.0, r.scale_exponents.0, cf, off)) }
            Err(_) => None });
        out(w, "expr", r);
        // 2. as the literal of a single unit
        let r = guard(|| Dimension::find_by_literal(w).map(|(u, _, p)| {
            let sc = match p { Some(p) => u.scale.mul(whippyunits_core::scale_exponents::ScaleExponents::_10(p.factor_log10())), None => u.scale };
            (u.exponents.value().0, sc.0, u.conversion_factor, u.affine_offset) }));
        out(w, "literal", r);
        // 3. a prefix name in front of a base unit's name
        let r = guard(|| Unit::multiple_to_base_unit(w).map(|(u, p)| {
            let sc = match p { Some(p) => u.scale.mul(whippyunits_core::scale_exponents::ScaleExponents::_10(p.factor_log10())), None => u.scale };
            (u.exponents.value().0, sc.0, u.conversion_factor, u.affine_offset) }));
        out(w, "multiple", r);
        // 4. at run time
        let r = guard(|| whippyunits::serialization::parse_ucum_unit(w).ok().map(|(d, s)| (d.0, s.0, f64::NAN, 0.0)));
        out(w, "ucum", r);
    }
}
fn out(w: &str, how: &str, r: Option<Option<([i16;8],[i16;4],f64,f64)>>) {
    match r {
        None => println!("{{\"ev\":\"resolve\",\"w\":{},\"how\":\"{}\",\"panic\":true}}", js(w), how),
        Some(None) => println!("{{\"ev\":\"resolve\",\"w\":{},\"how\":\"{}\",\"ok\":false}}", js(w), how),
        Some(Some((d, s, cf, off))) => println!("{{\"ev\":\"resolve\",\"w\":{},\"how\":\"{}\",\"ok\":true,\"d\":{},\"sc\":{},\"cf\":\"{}\",\"off\":\"{}\"}}",
            js(w), how, vec(&d), vec(&s), cf.tok(), off.tok()),
    }
}
'''

def check(chk):
    forms, _ = chk.tlc("UnitsGen", "INIT Init\nNEXT Next\n")
    chk.notes["written_units"] = {k: sum(1 for f in forms if f["kind"] == k) for k in ("form", "alien", "double")}
    base = Base(chk)
    byw = {f["w"]: f for f in forms}
    out = base.programs({"catalogue": SRC}, stdin="\n".join(real(f["w"]) for f in forms) + "\n")["catalogue"]
    if not isinstance(out, str): raise ToolError("catalogue driver: " + out.err[-3000:])
    events = []
    cf_of = {}
    for line in out.splitlines():
        e = json.loads(line)
        for k in ("cf", "off"):
            if k in e: e[k] = jnum(e[k])
        if "syms" in e: e["syms"] = [unreal(s) for s in e["syms"]]
        if e["ev"] == "resolve":
            e["w"] = unreal(e["w"])
            f = byw[e["w"]]
            e.update(i=f["i"], e=f["e"], kind=f["kind"], opt=e["how"] in ("literal", "multiple"))
            if e.pop("panic", False): e.update(ok=True, d=[99] * 8, sc=[0] * 4, cf=jint(1), off=jint(0), panic=True)
            if e["how"] == "expr" and e["ok"]: cf_of[e["w"]] = (e["cf"], e["off"])
            if e["how"] == "ucum":
                if not e["ok"]: e["opt"] = False
                elif e["w"] in cf_of: e["cf"], e["off"] = cf_of[e["w"]]
            if e["kind"] in ("alien", "double") and e["how"] in ("literal", "multiple") and e["kind"] == "double": pass
            e["key"] = "%s:%s" % (e["how"], e["w"])
        else:
            e["key"] = "%s:%s" % (e["ev"], e.get("name", ""))
        events.append(e)
    chk.notes["units_in_catalogue"] = sum(1 for e in events if e["ev"] == "unit")
    chk.validate("UnitsCheck", events)
