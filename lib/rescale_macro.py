"""rescale!(quantity, unit, type): jobs of the read-out generator, rescaled instead of read."""
from resolve import *
from accept import accepted_stable

def run_macro(chk, base, ints):
    from c08 import strip, HEADV
    th = chk.thorough
    jobs, _ = chk.tlc("ReadoutGen", "CONSTANTS Seed = %d PerUnit = %d NCompound = %d NBad = %d\nINIT Init\nNEXT Next\nINVARIANT SameDim\n" %
                      (chk.seed + 17, 40 if th else 8, 2000 if th else 400, 800 if th else 200))
    jobs = [j for j in jobs if ((j["t"][0] != "f") == ints)]
    jobs.sort(key=lambda j: json.dumps(j["c"]))
    for k, j in enumerate(jobs):
        j["a"], j["w"] = strip(j["ta"], k + 1), strip(j["tb"], k + 2)
        if j["c"][0] != "b" and k % 8: j["b"] = "()"
    units = sorted({unreal(j["w"]) for j in jobs})
    # a unit that unit! takes is one that is a scale; here it has to be an expression of Rust as well
    # (".(" is not)
    ok = dict(zip(units, accepted_stable(chk, base, HEADV + "macro_rules! unit_of { ($n:ident, $u:expr) => { type $n = unit!($u); } }\n",
                                         ["unit_of!(U%d, %s);" % (k, real(u)) for k, u in enumerate(units)])))
    lines = []
    for k, j in enumerate(jobs):
        t, b, t2 = j["t"], j["b"], j.get("t2", j["t"])
        call = "rescale!(q, %s%s)" % (j["w"], "" if t2 == "f64" and k % 2 else ", " + t2)
        q = "quantity!(%s, %s, %s, %s)" % (j["x"], j["a"], t, b)
        lines.append("fn f%d() { println!(\"#%d\"); let q = %s; println!(\"{}\", show(q)); match guard(move || %s) { Some(r) => println!(\"{}\", show(r)), None => println!(\"panic\") } }" % (k, k, q, call))
    acc = accepted_stable(chk, base, HEADV, lines)
    srcs = {}
    for s in range(NCPU):
        ks = [k for k in range(s, len(jobs), NCPU) if acc[k][0]]
        srcs["macro%d" % s] = HEADV + "".join(lines[k] + "\n" for k in ks) + "fn main() { quiet(); %s }" % " ".join("f%d();" % k for k in ks)
    got = {}
    for name, out in base.programs(srcs).items():
        if not isinstance(out, str):
            chk.add_bad(name, "the rescale! programs do not build or run together", {"program": out.src, "errors": out.err[-2000:]}); continue
        for line in out.splitlines():
            if line[0] == "#": k = int(line[1:]); got[k] = []
            else: got[k].append(line)
    events = []
    for k, j in enumerate(jobs):
        e = {"key": "rescale!(%s %s %s, %s, %s)" % (j["x"], j["a"], j["t"], j["w"], j.get("t2", j["t"])), "src": lines[k], "A": j["A"], "B": j["B"], "t": j["t"], "t2": j.get("t2", j["t"]), "b": j["b"],
             "w": unreal(j["w"]), "acc": acc[k][0], "plain": ok[unreal(j["w"])][0]}
        if acc[k][0]:
            if len(got.get(k, ())) != 2: continue
            q = parse_show(got[k][0]); e.update(s0=q["s"], v=q["v"])
            if got[k][1] == "panic":
                # nothing but the number can be judged
                e.update(d=q["d"], s=None, ot=q["t"], ob=q["b"], y={"k": "panic"})
            else:
                r = parse_show(got[k][1]); e.update(d=r["d"], s=r["s"], ot=r["t"], ob=r["b"], y=r["v"])
        events.append(e)
    # the scale of a result that never came is that of another result in the same unit
    scale = {e["w"]: e["s"] for e in events if e.get("s")}
    for e in events:
        if e["acc"] and e["s"] is None: e["s"] = scale.get(e["w"])
    events = [e for e in events if not e["acc"] or e["s"] is not None]
    chk.notes["rescale! programs"] = "%d, %d accepted" % (len(events), sum(e["acc"] for e in events))
    chk.validate("RescaleMacroCheck", events)
