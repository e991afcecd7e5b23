"""C09: erasure of dimensionless and angular quantities."""
from rescale import *
from accept import accepted

def ty(q): return qtype(q["d"] + q["s"], q["t"], q["b"])
def target(to): return to["t"] if to["k"] == "num" else ty(to["q"])

def check(chk):
    jobs, _ = chk.tlc("EraseGen", "CONSTANTS Seed = %d PerPair = %d NReject = %d\nINIT Init\nNEXT Next\n" % ((chk.seed, 12, 150) if chk.thorough else (chk.seed, 4, 28)))
    jobs.sort(key=lambda j: j["c"])
    base = Base(chk)
    lines = ["fn f%d(q: %s) { let _: %s = q.into(); }" % (n, ty(j["q"]), target(j["to"])) for n, j in enumerate(jobs)]
    res = accepted(chk, base, RT + probe() + BRANDS, lines)
    events = [{"key": "offer:%s:%s" % (ty(j["q"]), target(j["to"])), "ev": "offer", "q": j["q"], "to": j["to"], "acc": a, **({"err": w} if w else {})} for j, (a, w) in zip(jobs, res)]
    run = [j for j, (a, w) in zip(jobs, res) if a and j["vals"]]
    for k, j in enumerate(run): j["k"] = k
    srcs = {}
    for s in range(NCPU):
        body = []
        for j in run[s::NCPU]:
            t = j["q"]["t"]
            body.append("fn j%d() { println!(\"#%d\"); let vals: &[%s] = &[%s]; for &v in vals { let q = <%s>::new(bb(v)); let r: Option<%s> = guard(|| q.into()); println!(\"{} {}\", bb(v).tok(), match r { Some(r) => %s, None => \"panic\".into() }); } }\n"
                        % (j["k"], j["k"], t, ",".join(value(v, t) for v in j["vals"]), ty(j["q"]), target(j["to"]), "r.tok()" if j["to"]["k"] == "num" else "show(r)"))
        srcs["erase%d" % s] = HEADR + "".join(body) + "fn main() { quiet(); %s }" % " ".join("j%d();" % j["k"] for j in run[s::NCPU])
    for name, out in base.programs(srcs).items():
        if not isinstance(out, str):
            chk.add_bad(name, "conversion program does not build or run", {"program": out.src, "errors": out.err[-2000:]}); continue
        for line in out.splitlines():
            if line[0] == "#": j = run[int(line[1:])]; continue
            v, r = line.split(" ", 1)
            q = dict(j["q"], v=jnum(v))
            key = "%s:%s:%s" % (ty(j["q"]), target(j["to"]), v)
            if j["to"]["k"] == "num": events.append({"key": key, "ev": "number", "q": q, "to": j["to"], "o": jnum(r)})
            elif r == "panic": chk.add_bad(key, "erasing the angle panicked", {})
            else: events.append({"key": key, "ev": "quantity", "q": q, "to": j["to"], "r": parse_show(r)})
    chk.validate("EraseCheck", events)
