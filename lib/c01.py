"""C01: which operands the type checker accepts, and what accepted additions and comparisons answer."""
import itertools
from chains import *
from accept import accepted

def ty(p): return qtype(p["d"] + p["s"], p["t"], p["b"])

def line(n, e):
    op, P = e["op"], ty(e["p"])
    if e["k"] == "q":
        Q = ty(e["q"])
        a = "fn f%d(mut a: %s, b: %s) " % (n, P, Q)
        if op in ("+", "-", "%"): return a + "{ let _: %s = a %s b; }" % (P, op)
        if op in ("*", "/"): return a + "{ let _ = a %s b; }" % op
        if op in ("+=", "-=", "%="): return a + "{ a %s b; }" % op
        if op in ("<", "<=", ">", ">=", "==", "!="): return a + "{ let _: bool = a %s b; }" % op
        if op == "cmp": return a + "{ let _ = PartialOrd::partial_cmp(&a, &b); }"
        if op == "assign": return a + "{ a = b; }"
        if op == "call": return a + "{ fn g(_: %s) {} g(b); }" % P
        if op == "rescale": return a + "{ a = whippyunits::api::rescale_%s(b); }" % e["q"]["t"]
    a = "fn f%d(mut a: %s, b: %s) " % (n, P, e["x"])
    if op == "neg": return a + "{ let _: %s = -a; }" % P
    if op[0] == "l": return a + "{ let _ = b %s a; }" % op[1:]
    if op in ("+", "-", "%", "*", "/"): return a + "{ let _ = a %s b; }" % op
    if op in ("<", "=="): return a + "{ let _: bool = a %s b; }" % op
    if op == "assign": return a + "{ a = b; }"
    return a + "{ a %s b; }" % op

def check(chk):
    per = 140 if chk.thorough else 20
    cases, _ = chk.tlc("GuardGen", "CONSTANTS Seed = %d PerCase = %d\nINIT Init\nNEXT Next\n" % (chk.seed, per))
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    base = Base(chk)
    res = accepted(chk, base, RT + probe() + GBRANDS, [line(n, e) for n, e in enumerate(cases)])
    events = []
    for e, (acc, why) in zip(cases, res):
        events.append({"key": "%s:%s:%s:%d" % (e["k"], e["op"], e["p"]["t"], e["df"]), **e, "acc": acc, **({"err": why} if why else {})})
    chk.notes["pairs"] = len(events); chk.notes["accepted"] = sum(e["acc"] for e in events)
    chk.validate("GuardCheck", events, replay_extra=lambda e: {"program": line(0, e)})
    # what the accepted operations answer
    chains, _ = chk.tlc("QuantityGen", "CONSTANTS Seed = %d NChains = %d ChainLen = 8 NWalks = 0 OnlySame = TRUE\nINIT Init\nNEXT Next\n" % (chk.seed, 2800 if chk.thorough else 420))
    chains.sort(key=lambda c: c["c"])
    traces = collect(chk, chains, base.programs(sources(chains)), "chain")
    if traces: chk.validate_traces("QuantityCheck", traces)
    compare(chk, base)

def compare(chk, base):
    """Comparisons of like quantities answer like comparisons of the stored numbers."""
    evs, rows = [], []
    for t in TYPES:
        if t[0] == "f":
            vals = ["0.0", "-0.0", "1.0", "-1.0", "1.5", "1e10", "-1e10", "%s::MIN_POSITIVE" % t, "%s::MAX" % t, "%s::MIN" % t,
                    "%s::INFINITY" % t, "%s::NEG_INFINITY" % t, "%s::NAN" % t, "(1.0 + %s::EPSILON)" % t]
        else:
            vals = ["%s::MIN" % t, "%s::MAX" % t, "0", "1", "2", "100", "(%s::MAX - 1)" % t, "(%s::MAX / 2)" % t]
        rows.append((t, vals))
    src = RT + probe() + GBRANDS + r'''
fn cmp<P: Probe + PartialOrd + Copy>(a: P, b: P) -> String where P::V: Num {
    let o = match a.partial_cmp(&b) { None => 9, Some(o) => o as i8 };
    format!("{} {} {} {} {} {} {} {} {}", a.raw().tok(), b.raw().tok(), a < b, a <= b, a > b, a >= b, a == b, a != b, o)
}
'''
    body = []
    for n, (t, vals) in enumerate(rows):
        for b in ("()", "B1"):
            q = qtype([1, 2, -3, 0, 0, 0, 1, n, 3, 0, -2, 1], t, b)
            body.append("{ let v: Vec<%s> = vec![%s]; for &x in &v { for &y in &v { println!(\"%s {}\", cmp(<%s>::new(x), <%s>::new(y))); } } }" % (t, ",".join(vals), t, q, q))
    src += "fn main() { %s }" % "\n".join(body)
    out = base.programs({"cmp": src})["cmp"]
    if not isinstance(out, str):
        chk.add_bad("compare", "comparison program does not build or run", {"errors": out.err[-2000:]}); return
    for l in out.splitlines():
        t, a, b, lt, le, gt, ge, eq, ne, o = l.split()
        T = lambda s: s == "true"
        evs.append({"key": "compare:%s:%s:%s" % (t, a, b), "a": jnum(a), "b": jnum(b), "lt": T(lt), "le": T(le), "gt": T(gt), "ge": T(ge), "eq": T(eq), "ne": T(ne), "o": int(o)})
    chk.validate("CompareCheck", evs)
