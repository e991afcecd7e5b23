"""C11: serialising and reading back."""
from rescale import *
from texts import *

HEADS = HEADR + r'''
use whippyunits::*;
fn res<P: Probe, E: std::fmt::Display>(r: Option<Result<P, E>>) -> String where P::V: Num {
    match r { None => "panic".into(), Some(Ok(q)) => format!("ok {}", show(q)), Some(Err(e)) => { let _ = e.to_string(); "err".into() } }
}
fn back<P: Probe + for<'a> serde::Deserialize<'a>>(s: &str) where P::V: Num { println!("{}", res(guard(|| serde_json::from_str::<P>(s)))); }
fn text<E: std::fmt::Display>(r: Option<Result<String, E>>) -> Option<String> { match r { None => { println!("panic"); None } Some(Err(e)) => { println!("err"); None } Some(Ok(s)) => { println!("{}", js(&s)); Some(s) } } }
'''
def check(chk):
    n = 1500 if chk.thorough else 500
    jobs, _ = chk.tlc("RoundTripGen", "CONSTANTS Seed = %d NTypes = %d\nINIT Init\nNEXT Next\n" % (chk.seed, n))
    jobs.sort(key=lambda j: j["n"])
    base = Base(chk)
    srcs = {}
    for p in range(NCPU):
        body, main = [], []
        for j in jobs[p::NCPU]:
            k = j["n"]; main.append("f%d();" % k); T = qtype(j["d"] + j["s"], j["t"], j["b"])
            backs = " ".join("back::<%s>(&s);" % qtype(b["d"] + b["s"], "f64", j["b"]) for b in j["back"])
            L = ["fn f%d() { println!(\"#%d\"); let vals: &[%s] = &[%s]; for &v in vals { type X = %s;" % (k, k, j["t"], ",".join(v + ("" if "." in v or "e" in v else "") for v in j["vals"]), T)]
            for r in range(2 if j["b"] == "()" and (base.features is None or "std" in base.features) else 1):
                L.append("let q = <X>::new(v); println!(\"@ {}\", show(<X>::new(v))); if let Some(s) = text(guard(|| %s)) { %s }" % (["serde_json::to_string(&q)", "serialization::serialize_to_json(&q)"][r], backs))
            body.append(" ".join(L) + "}}\n")
        srcs["rt%d" % p] = HEADS + "".join(body) + "fn main() { quiet(); %s }" % " ".join(main)
    byn = {j["n"]: j for j in jobs}
    traces = []
    for name, out in base.programs(srcs).items():
        if not isinstance(out, str):
            chk.add_bad(name, "serialising and reading back does not build or run", {"program": out.src, "errors": out.err[-3000:]}); continue
        for line in out.splitlines():
            if line[0] == "#": j = byn[int(line[1:])]; continue
            if line[0] == "@":
                q = parse_show(line[2:]); ev = []; b = 0; doc = None
                traces.append({"key": "%s of %s" % (line[2:], qtype(j["d"] + j["s"], j["t"], j["b"])), "ev": ev}); continue
            if not ev:
                if line == "panic": chk.add_bad(traces[-1]["key"], "serialising panics", {"quantity": q})
                if line in ("panic", "err"): ev.append({"op": "nothing", "d": q["d"], "s": q["s"], "v": q["v"]}); continue
                ev.append({"op": "write", "d": q["d"], "s": q["s"], "v": q["v"], "doc": json_tokens(json.loads(line)), "text": json.loads(line)}); continue
            t = j["back"][b]; b += 1
            if line == "panic": chk.add_bad(traces[-1]["key"], "reading back panics", {"document": ev[0], "target": t}); continue
            e = {"op": "back", "d": t["d"], "s": t["s"], "b": j["b"], "r": {"ok": False}}
            if line != "err": r = parse_show(line[3:]); e["r"] = {"ok": True, **r}
            ev.append(e)
    traces = [t for t in traces if t["ev"]]
    chk.notes["documents"] = len(traces)
    chk.notes["read back"] = sum(1 for t in traces for e in t["ev"] if e["op"] == "back" and e["r"]["ok"])
    chk.validate_traces("RoundTripCheck", traces)
