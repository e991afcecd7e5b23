"""What the core library says about written units (a reference for scales; judged by C05)."""
from rescale import *

SRC = RT + r'''
use whippyunits_core::*;
fn vec<T: std::fmt::Display>(v: &[T]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
fn main() {
    quiet();
    for line in std::io::stdin().lines() {
        let w: String = serde_json::from_str(&line.unwrap()).unwrap();
        let r = guard(|| match syn::parse_str::<UnitExpr>(&w) {
            Ok(e) => { let r = e.evaluate_with_mode(EvaluationMode::Tolerant); let (cf, off) = calculate_unit_conversion_factors(&e);
                       Some((r.dimension_exponents.0, r.scale_exponents.0, cf, off)) }
            Err(_) => None });
        println!("{}\t{}", match r { None | Some(None) => "{\"acc\":false}".to_string(),
            Some(Some((d, s, cf, off))) => format!("{{\"acc\":true,\"d\":{},\"sc\":{},\"cf\":\"{}\",\"off\":\"{}\"}}", vec(&d), vec(&s), cf.tok(), off.tok()) }, make_plural(&w));
    }
}
'''
def resolve(chk, base, words, name="resolve"):
    """{word: {acc, d, sc, cf, off, plural}}; words with {mu}/{Ohm} placeholders"""
    words = sorted(set(words))
    out = base.programs({name: SRC}, stdin="".join(json.dumps(real(t)) + "\n" for t in words))[name]
    if not isinstance(out, str): raise ToolError(out.err[-3000:])
    res = {}
    for w, line in zip(words, out.splitlines()):
        a, plural = line.split("\t"); r = json.loads(a); r["plural"] = plural
        for k in ("cf", "off"):
            if k in r: r[k] = jnum(r[k])
        res[w] = r
    return res
