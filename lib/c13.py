"""C13: the displayed unit."""
from rescale import *
from texts import *

SRC = RT + r'''
use whippyunits_core::{dimension_exponents::DynDimensionExponents, scale_exponents::ScaleExponents};
use whippyunits::print::prettyprint::*;
fn main() { quiet(); for l in std::io::stdin().lines() {
    let (d, s, v, b): ([i16; 8], [i16; 4], String, bool) = serde_json::from_str(&l.unwrap()).unwrap();
    let v: f64 = v.parse().unwrap();
    for verbose in [false, true] {
        println!("{}", js(&guard(|| pretty_print_quantity_value(v, DynDimensionExponents(d), ScaleExponents(s), "f64", verbose, true, if b { Some("x::B1") } else { None })).unwrap_or("{panic}".into())));
        println!("{}", js(&guard(|| pretty_print_quantity_type(DynDimensionExponents(d), ScaleExponents(s), "f64", verbose, true, if b { Some("()") } else { Some("y::z::B2") })).unwrap_or("{panic}".into())));
    } } }
'''
def check(chk):
    th = chk.thorough
    jobs, _ = chk.tlc("DisplayGen", "CONSTANTS Seed = %d NRandom = %d Part = %d NTyped = %d\nINIT Init\nNEXT Next\n" % (chk.seed, 12000 if th else 2000, 1 if th else 5, 1200 if th else 300))
    jobs.sort(key=lambda j: json.dumps(j, sort_keys=True))
    base = Base(chk)
    run, typed = [j for j in jobs if not j["typed"]], [j for j in jobs if j["typed"]]
    srcs = {"names": SRC} if base.features is None else {}   # the functions behind the displays, with the default features
    for p in range(NCPU):
        body, main = [], []
        for k, j in list(enumerate(typed))[p::NCPU]:
            main.append("f%d();" % k)
            body.append("fn f%d() { println!(\"#%d\"); let vals: &[%s] = &[%s]; for &v in vals { type X = %s; println!(\"{}\", show(<X>::new(v))); println!(\"{}\\n{}\", js(&guard(|| format!(\"{}\", <X>::new(v))).unwrap_or(\"{panic}\".into())), js(&guard(|| format!(\"{:?}\", <X>::new(v))).unwrap_or(\"{panic}\".into()))); } }\n" %
                        (k, k, j["t"], ",".join(j["vals"]), qtype(j["d"] + j["s"], j["t"], j["b"])))
        srcs["typed%d" % p] = HEADR + "".join(body) + "fn main() { quiet(); %s }" % " ".join(main)
    stdin = "".join(json.dumps([j["d"], j["s"], j["v"], j["h"] % 2 == 0]) + "\n" for j in run)
    events = []
    def event(text, d, s, t, b, v, verbose, key):
        key = "%s: %s" % (key, text)
        if text == "{panic}": chk.add_bad(key, "panics", {"d": d, "s": s, "v": v}); return
        q = quantity_text(text)
        e = {"key": key, "d": d, "s": s, "t": t, "b": b, "v": v, "verbose": verbose, "read": q is not None}
        if q: e.update({k: q[k] for k in ("shown", "ss", "ds", "ty", "br")}, ts=name_tokens(q["name"]))
        events.append(e)
    for name, out in base.programs(srcs, stdin=stdin).items():
        if not isinstance(out, str):
            chk.add_bad(name, "displaying quantities does not build or run", {"program": out.src, "errors": out.err[-3000:]}); continue
        ls = out.splitlines()
        if name == "names":
            for j, four in zip(run, zip(ls[::4], ls[1::4], ls[2::4], ls[3::4])):
                for n, text in enumerate(json.loads(x) for x in four):
                    even = j["h"] % 2 == 0
                    event(text, j["d"], j["s"], "f64", ["()", "B1"][even] if n % 2 == 0 else ["B2", "()"][even], jfloat(float(j["v"])) if n % 2 == 0 else {"k": "none"}, n > 1, "%s %s" % (j["d"], j["s"]))
        else:
            i = 0
            while i < len(ls):
                if ls[i][0] == "#": j = typed[int(ls[i][1:])]; i += 1; continue
                q = parse_show(ls[i])
                for n in (0, 1): event(json.loads(ls[i + 1 + n]), q["d"], q["s"], q["t"], q["b"], q["v"], n == 1, "%s %s" % (q["d"], q["s"]))
                i += 3
    chk.notes["displays"] = len(events)
    chk.validate("DisplayCheck", events)
