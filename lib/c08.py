"""C08: declaring in one unit and reading in another."""
from resolve import *
from accept import accepted_stable
from c06 import number
from c07 import join

HEADV = HEADR + "use whippyunits::*;\nfn out<T: Num>(r: Option<T>) { match r { Some(v) => println!(\"{}\", v.tok()), None => println!(\"panic\") } }\n"
def strip(ts, n):
    return join(ts, n).replace("//", "/ /").replace("/*", "/ *")

def check(chk):
    th = chk.thorough
    jobs, _ = chk.tlc("ReadoutGen", "CONSTANTS Seed = %d PerUnit = %d NCompound = %d NBad = %d\nINIT Init\nNEXT Next\nINVARIANT SameDim\n" %
                      (chk.seed, 60 if th else 20, 3000 if th else 600, 2000 if th else 400))
    jobs.sort(key=lambda j: json.dumps(j["c"]))
    base = Base(chk)
    for k, j in enumerate(jobs): j["a"], j["w"] = strip(j["ta"], k + 1), strip(j["tb"], k + 2)
    at = resolve(chk, base, [unreal(j[f]) for j in jobs for f in ("a", "w")])
    lines = []
    for k, j in enumerate(jobs):
        t, b = j["t"], j["b"]; t2, b2 = j.get("t2", t), j.get("b2", b)
        targs = "" if (t2, b2) == ("f64", "()") and k % 2 else ", %s" % t2 + ("" if b2 == "()" and k % 3 else ", " + b2)
        read = lambda u: "value!(q, %s%s)" % (u, targs)
        body = "let q = quantity!(%s, %s, %s, %s);" % (j["x"], j["a"], t, b)
        if j["c"][0] == "b": lines.append("fn f%d() { %s let _ = %s; }" % (k, body, read(j["w"])))
        else: lines.append("fn f%d() { println!(\"#%d\"); %s println!(\"{}\", show(q)); out(guard(|| %s)); out(guard(|| %s)); }" % (k, k, body, read(j["w"]), read(j["a"])))
    acc = accepted_stable(chk, base, HEADV, lines)
    srcs = {}
    for s in range(NCPU):
        ks = [k for k in range(s, len(jobs), NCPU) if acc[k][0] and jobs[k]["c"][0] != "b"]
        srcs["read%d" % s] = HEADV + "".join(lines[k] + "\n" for k in ks) + "fn main() { quiet(); %s }" % " ".join("f%d();" % k for k in ks)
    got = {}
    for name, out in base.programs(srcs).items():
        if not isinstance(out, str):
            chk.add_bad(name, "the read-outs do not build or run together", {"program": out.src, "errors": out.err[-2000:]}); continue
        for line in out.splitlines():
            if line[0] == "#": k = int(line[1:]); got[k] = []
            else: got[k].append(line)
    traces = []
    for k, j in enumerate(jobs):
        key = "%s %s in %s as %s" % (j["x"], j["a"], j["w"], j["t"])
        pair = {"op": "pair", "A": j["A"], "B": j["B"], "t": j["t"], "b": j["b"], "t2": j.get("t2", j["t"]), "b2": j.get("b2", j["b"]), "acc": acc[k][0]}
        ev = [pair]
        if k in got and len(got[k]) == 3:
            q = parse_show(got[k][0])
            if (q["t"], q["b"]) != (j["t"], j["b"]): chk.add_bad(key, "storage type or brand of the declared quantity", {"got": got[k]}); continue
            ra, rb = at[unreal(j["a"])].get("sc", [99] * 4), at[unreal(j["w"])].get("sc", [99] * 4)
            ev.append({"op": "declare", "u": j["A"], "ref": ra, "t": j["t"], "x": number(j["x"], j["t"]), "d": q["d"], "s": q["s"], "v": q["v"]})
            ev.append({"op": "read", "u": j["B"], "ref": rb, "y": jnum(got[k][1])})
            ev.append({"op": "read", "u": j["A"], "ref": ra, "y": jnum(got[k][2])})
        traces.append({"key": key, "src": lines[k], "ev": ev})
    chk.notes["pairs"] = {"same dimension": sum(1 for j in jobs if j["c"][0] != "b"), "may not fit": sum(1 for j in jobs if j["c"][0] == "b")}
    chk.notes["accepted"] = sum(a[0] for a in acc)
    chk.validate_traces("ReadoutCheck", traces)
