"""C02: products, quotients, inverses: exact derived unit and number along chains of operations."""
import random
from chains import *

def core_events(chk, base, lim=200):
    """The exponent vectors of the core crate: type-level, dynamic, scale."""
    rnd = random.Random(chk.seed)
    n = 1200 if chk.thorough else 240
    def vec(k, lo, hi): return [rnd.choice([0, 0, 1, -1, rnd.randint(-4, 4), rnd.randint(lo, hi), lo, hi]) for _ in range(k)]
    cases = []
    for i in range(n):
        a, b = vec(8, -lim, lim), vec(8, -lim, lim)
        cases += [("tadd", a, b, 0), ("tsub", a, b, 0), ("dadd", a, b, 0), ("dtadd", a, b, 0), ("dneg", a, [], 0), ("tval", a, [], 0), ("zero", a, [], 0)]
        cases += [("dmul", vec(8, -400, 400), [], rnd.choice([0, 1, -1, 2, -3, rnd.randint(-70, 70)]))]
        cases += [("smul", vec(4, -400, 400), vec(4, -400, 400), 0), ("sneg", vec(4, -400, 400), [], 0),
                  ("sexp", vec(4, -400, 400), [], rnd.choice([0, 1, -1, 2, -3, rnd.randint(-70, 70)]))]
        x = rnd.randint(-50, 50)
        l = [[x, 0, x, 0], [x, 0, x + 1, 0], [x, 1, x, 0], [x, 0, x, 1], [x, 0, -x, 0], [0, x, 0, 0], [0, 0, 0, x]]
        cases.append(("log10", l[i % 7], [], 0))
        for f in ("s2", "s3", "s5", "spi", "s6", "s10"): cases.append((f, [], [], rnd.randint(-400, 400)))
    for k in range(8): cases.append(("zero", [int(j == k) for j in range(8)], [], 0))
    cases.append(("zero", [0] * 8, [], 0))
    def ty(v): return "whippyunits_core::dimension_exponents::TypeDimensionExponents::<%s>" % ",".join("%s<%d>" % (s, x) for s, x in zip(["_M", "_L", "_T", "_I", "_Θ", "_N", "_J", "_A"], v))
    def dy(v): return "DynDimensionExponents(bb(%s))" % json.dumps(v)
    def sc(v): return "ScaleExponents(bb(%s))" % json.dumps(v)
    def expr(op, a, b, n):
        return {"tadd": lambda: "(%s::new()+%s::new()).value_const().0.to_vec()" % (ty(a), ty(b)),
                "tsub": lambda: "(%s::new()-%s::new()).value_const().0.to_vec()" % (ty(a), ty(b)),
                "tval": lambda: "%s::default().value().0.to_vec()" % ty(a),
                "zero": lambda: "vec![%s.is_zero() as i16]" % dy(a),
                "dadd": lambda: "(%s+%s).0.to_vec()" % (dy(a), dy(b)), "dtadd": lambda: "(%s+%s::new()).0.to_vec()" % (dy(a), ty(b)),
                "dneg": lambda: "(-%s).0.to_vec()" % dy(a), "dmul": lambda: "(%s*bb(%d)).0.to_vec()" % (dy(a), n),
                "smul": lambda: "%s.mul(%s).0.to_vec()" % (sc(a), sc(b)), "sneg": lambda: "%s.neg().0.to_vec()" % sc(a),
                "sexp": lambda: "%s.scalar_exp(bb(%d)).0.to_vec()" % (sc(a), n),
                "log10": lambda: "%s.log10().into_iter().collect::<Vec<_>>()" % sc(a),
                }.get(op, lambda: "ScaleExponents::%s(bb(%d)).0.to_vec()" % ({"s2": "_2", "s3": "_3", "s5": "_5", "spi": "_Pi", "s6": "_6", "s10": "_10"}[op], n))()
    head = RT + "use whippyunits_core::*; use whippyunits_core::dimension_exponents::*; use whippyunits_core::scale_exponents::ScaleExponents; use std::hint::black_box as bb;\n"
    srcs = {}
    for s in range(NCPU):
        part = cases[s::NCPU]; fns = []
        for j in range(0, len(part), 200):
            fns.append("fn f%d() { %s }" % (j, "\n".join("o(guard(|| %s));" % expr(*c) for c in part[j:j + 200])))
        srcs["core%d" % s] = head + "fn o(v: Option<Vec<i16>>) { match v { Some(v) => println!(\"{:?}\", v), None => println!(\"[9999]\") } }\n" + "\n".join(fns) + \
            "\nfn main() { quiet(); %s }" % " ".join("f%d();" % j for j in range(0, len(part), 200))
    evs = []
    # type-level sums need the feature in the program too; it is slow, so only here
    for name, out in base.programs(srcs, extra=["-Zcrate-attr=feature(generic_const_exprs)"] if base.cge else []).items():
        if not isinstance(out, str):
            chk.add_bad(name, "program over exponent vectors failed", {"program": out.src, "errors": out.err[-2000:]}); continue
        for (op, a, b, n), line in zip(cases[int(name[4:])::NCPU], out.splitlines()):
            evs.append({"key": "vec:" + op, "op": op, "a": a, "b": b, "n": n, "r": json.loads(line)})
    if evs: chk.validate("VecCheck", evs)

def check(chk):
    n, ln, walks = (6000, 12, 34) if chk.thorough else (2000, 8, 34)
    chains, _ = chk.tlc("QuantityGen", "CONSTANTS Seed = %d NChains = %d ChainLen = %d NWalks = %d OnlySame = FALSE\nINIT Init\nNEXT Next\n" % (chk.seed, n, ln, walks))
    chains.sort(key=lambda c: c["c"])
    chk.notes["chains"] = len(chains)
    chk.notes["operations"] = sum(len(c["ops"]) - 1 for c in chains)
    base = Base(chk)
    outs = base.programs(sources(chains))
    traces = collect(chk, chains, outs, "chain")
    if traces: chk.validate_traces("QuantityCheck", traces)
    core_events(chk, base)
