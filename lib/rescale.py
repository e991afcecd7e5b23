"""Rescaling jobs rendered to Rust."""
from chains import *

HEADR = RT + probe() + BRANDS + r'''
use std::hint::black_box as bb;
fn hop<P: Probe, R: Probe>(p: P, f: impl FnOnce(P) -> R) -> Option<R> where R::V: Num { guard(move || f(p)) }
'''
def value(v, t):
    if "e" in v or "sp" in v: return lit(v, t)
    n = sum(x * 1000 ** i for i, x in enumerate(v["m"])) * v["s"]
    return "%d" % n

def render(k, j, brand):
    t = j["t"]; d = j["d"]
    ts = [qtype(d + sc, t, brand) for sc in j["sc"]]
    L = ["fn j%d() { println!(\"#%d\"); let vals: &[%s] = &[%s]; for &v in vals {" % (k, k, t, ",".join(value(v, t) for v in j["vals"]))]
    L.append("println!(\"@\"); let q = <%s>::new(bb(v)); println!(\"{}\", show(q));" % ts[0])
    for ty in ts[1:]:
        L.append("let Some(q) = hop(q, |q| -> %s { whippyunits::api::rescale_%s(q) }) else { println!(\"panic\"); continue }; println!(\"{}\", show(q));" % (ty, t))
    return "\n ".join(L) + "}}\n"

def run(chk, base, jobs, label, head=HEADR):
    jobs.sort(key=lambda j: json.dumps(j["c"], sort_keys=True))
    for k, j in enumerate(jobs):
        j["k"] = k; j["b"] = ["()", "B1"][k % 2]
        j["d"] = [[0] * 8, [0, 1, 0, 0, 0, 0, 0, 0], [1, 2, -3, 0, 0, 1, 0, 2], [0, 0, 0, -1, 4, 0, 2, 0], [0, 0, 0, 0, 0, 0, 0, 1]][k % 5]
    srcs = {}
    for s in range(NCPU):
        part = jobs[s::NCPU]
        if part: srcs["%s%d" % (label, s)] = head + "".join(render(j["k"], j, j["b"]) for j in part) + "fn main() { quiet(); %s }" % " ".join("j%d();" % j["k"] for j in part)
    traces = []
    for name, out in base.programs(srcs).items():
        if isinstance(out, CompileFailure):
            chk.add_bad(name, "rescaling between scales of one dimension does not compile", {"program": out.src, "errors": compile_errors_with_lines(out.err)}); continue
        if isinstance(out, RunFailure):
            chk.add_bad(name, "program failed", {"program": out.src, "stderr": out.err[-2000:]}); continue
        for line in out.splitlines():
            if line[0] == "#": j = jobs[int(line[1:])]
            elif line == "@":
                traces.append({"key": "%s:%s:%s" % (j["t"], "/".join(",".join(map(str, s)) for s in j["sc"]), len(traces)), "ty": j["t"], "d": j["d"], "ev": []}); n = 0
            else:
                if line == "panic": e = {"op": "to", "d": j["d"], "s": j["sc"][n], "v": {"k": "panic"}}
                else:
                    r = parse_show(line); e = {"op": "to" if n else "new", "d": r["d"], "s": r["s"], "v": r["v"]}
                    if r["b"] != j["b"] or r["t"] != j["t"]: chk.add_bad(traces[-1]["key"], "brand or storage type changed", {"line": line})
                e["to"] = j["sc"][n]; n += 1
                traces[-1]["ev"].append(e)
    return traces

def cvalue(v, t):
    """the value as a constant expression"""
    if "sp" in v: return lit(v, t)[3:-1]
    if "e" not in v: return value(v, t)
    if t[0] != "f": return "%d" % (v["n"] * 2 ** v["e"])
    import struct
    return "%s::from_bits(%d)" % (t, struct.unpack("<Q", struct.pack("<d", v["n"] * 2.0 ** v["e"]))[0] if t == "f64" else struct.unpack("<I", struct.pack("<f", v["n"] * 2.0 ** v["e"]))[0])

def run_const(chk, base, jobs, traces, stride):
    """The same rescalings evaluated by the compiler: `rescale` is a const function."""
    done = {}
    for tr in traces: done.setdefault(tr["key"].rsplit(":", 1)[0], []).append(tr)
    want, body = [], []
    for j in jobs:
        trs = done.get("%s:%s" % (j["t"], "/".join(",".join(map(str, s)) for s in j["sc"])), [])
        if j["k"] % stride or len(trs) != len(j["vals"]): continue
        ts = [qtype(j["d"] + sc, j["t"], j["b"]) for sc in j["sc"]]
        for n, (v, tr) in enumerate(zip(j["vals"], trs)):
            if n > 2 and "sp" not in v or any(e["v"]["k"] == "panic" for e in tr["ev"]): continue
            e = "<%s>::new(%s)" % (ts[0], cvalue(v, j["t"]))
            L = ["const C0: %s = %s; println!(\"{}\", show(C0));" % (ts[0], e)]
            for i, ty in enumerate(ts[1:]): L.append("const C%d: %s = whippyunits::api::rescale_%s(C%d); println!(\"{}\", show(C%d));" % (i + 1, ty, j["t"], i, i + 1))
            want.append((j, len(ts))); body.append("fn k%d() { %s }" % (len(body), "\n ".join(L)))
    src = {}
    for s in range(NCPU):
        src["const%d" % s] = HEADR + "\n".join(body[s::NCPU]) + "\nfn main() { quiet(); %s }" % " ".join("k%d();" % k for k in range(len(body))[s::NCPU])
    out2 = []
    for name, out in base.programs(src).items():
        if not isinstance(out, str):
            chk.add_bad(name, "rescaling in a constant expression does not compile", {"program": out.src, "errors": out.err[-3000:]}); continue
        lines = iter(out.splitlines())
        for j, m in want[int(name[5:])::NCPU]:
            ev = []
            for n in range(m):
                r = parse_show(next(lines)); ev.append({"op": "to" if n else "new", "d": r["d"], "s": r["s"], "v": r["v"], "to": j["sc"][n]})
            out2.append({"key": "const:%s:%s" % (j["t"], "/".join(",".join(map(str, s)) for s in j["sc"])), "ty": j["t"], "d": j["d"], "ev": ev})
    chk.notes["constant rescalings"] = len(out2)
    return out2

def gen(chk, n, ints, sweep, far, name):
    jobs, _ = chk.tlc("RescaleGen", "CONSTANTS Seed = %d NChains = %d Sweep = %s Far = %d Ints = %s\nINIT Init\nNEXT Next\n" % (chk.seed, n, sweep, far, ints), name)
    return jobs
