"""C03: floating-point rescaling preserves the physical quantity."""
from rescale import *
from rescale_macro import run_macro

def factors(chk, base):
    """The factor functions behind rescale, over every exponent of the tables, and random combinations."""
    import random
    rnd = random.Random(chk.seed)
    cases = []
    for a, m in enumerate((100, 100, 100, 8)):
        for x in list(range(-m, m + 1)) + [m + 1, -m - 1, m + 7, -m - 13]:
            v = [0] * 4; v[a] = x; cases.append((v, [0] * 4)); cases.append(([0] * 4, v))
    for _ in range(20000 if chk.thorough else 2000):
        cases.append(([rnd.randint(-50, 50), rnd.randint(-50, 50), rnd.randint(-50, 50), rnd.randint(-4, 4)], [rnd.randint(-50, 50), rnd.randint(-50, 50), rnd.randint(-50, 50), rnd.randint(-4, 4)]))
    src = RT + r'''fn main() { quiet(); for l in std::io::stdin().lines() { let l = l.unwrap(); let v: Vec<i16> = l.split(' ').map(|x| x.parse().unwrap()).collect();
      match guard(|| whippyunits::api::aggregate_scale_factor_float(v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7])) { Some(x) => println!("{}", x.tok()), None => println!("panic") } } }'''
    out = base.programs({"factors": src}, stdin="\n".join(" ".join(map(str, a + b)) for a, b in cases) + "\n")["factors"]
    if not isinstance(out, str):
        chk.add_bad("factors", "the scale factor function cannot be used", {"errors": out.err[-2000:]}); return
    return [{"key": "factor:%s" % (a + b), "ty": "f64", "d": [], "ev": [{"op": "new", "d": [], "s": a, "to": a, "v": jint(1)}, {"op": "to", "d": [], "s": b, "to": b, "v": jnum(o)}]}
            for (a, b), o in zip(cases, out.splitlines())]

def check(chk):
    jobs = gen(chk, 4000 if chk.thorough else 600, "FALSE", "TRUE", 3, "RescaleGen")
    base = Base(chk)
    traces = run(chk, base, jobs, "rescale")
    traces += run_const(chk, base, jobs, traces, 1 if chk.thorough else 5) + (factors(chk, base) or [])
    if traces: chk.validate_traces("RescaleCheck", traces)
    run_macro(chk, base, False)
