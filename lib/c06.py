"""C06: every syntax that declares a quantity."""
from fractions import Fraction
from resolve import *
from accept import accepted_stable

HEADD = HEADR + "use whippyunits::*; use whippyunits::default_declarators::*;\n"
def nearest_f32(x):
    """the bits of the f32 number nearest to a decimal text, which need not be the one nearest to the nearest f64"""
    bits = struct.unpack("<I", struct.pack("<f", float(x)))[0]
    exact = lambda b: Fraction(struct.unpack("<f", struct.pack("<I", b))[0])
    near = [b for b in (bits - 1, bits, bits + 1) if b & 0x7f800000 != 0x7f800000 and (b ^ bits) >> 31 == 0]
    return min(near, key=lambda b: (abs(exact(b) - Fraction(x)), b & 1))
def number(x, t):
    if t == "f64": return jfloat(float(x))
    if t == "f32": return jnum("f:%08x" % nearest_f32(x))
    return jint(int(x))
def typed(x, t):
    """a Rust literal of type t"""
    return "(%s%s)" % (x, "_" + t)

def expr(j, plural):
    w, t, b, x = real(j["w"]), j["t"], j["b"], j["x"]
    syn = j["syn"]
    if syn in ("q", "qi"): return "quantity!(%s, %s)" % (x, w)
    if syn == "qT": return "quantity!(%s, %s, %s)" % (x, w, t)
    if syn == "qB": return "quantity!(%s, %s, %s, %s)" % (x, w, t, b)
    if syn in ("mf", "mi", "mT"): return "%s.%s()" % (typed(x, t), j["pname"] + plural)
    if syn in ("lf", "li"): return "%s%s" % (x, w)
    if syn == "lT": return "%s%s_%s" % (x, w, t)
    if syn == "u": return "<unit!(%s)>::new(0.0)" % w
    if syn == "uT": return "<unit!(%s, %s%s)>::new(0 as %s)" % (w, t, "" if b == "()" else ", " + b, t)

def check(chk):
    jobs, _ = chk.tlc("DeclareGen", "CONSTANTS Seed = %d Stride = %d\nINIT Init\nNEXT Next\n" % (chk.seed, 1 if chk.thorough else 3))
    jobs.sort(key=lambda j: (j["w"], j["syn"]))
    base = Base(chk)
    at = resolve(chk, base, [j[k] for j in jobs for k in ("w", "name")])
    lines = []
    for k, j in enumerate(jobs):
        j["src"] = expr(j, at[j["name"]]["plural"])
        attr = "#[culit::culit(whippyunits::default_declarators::literals)] " if j["syn"][0] == "l" else ""
        lines.append(attr + "fn f%d() { println!(\"%d {}\", show(%s)); }" % (k, k, j["src"]))
    acc = accepted_stable(chk, base, HEADD, lines)
    srcs = {}
    for s in range(NCPU):
        ks = [k for k in range(s, len(jobs), NCPU) if acc[k][0]]
        srcs["declare%d" % s] = HEADD + "".join(lines[k] + "\n" for k in ks) + "fn main() { %s }" % " ".join("f%d();" % k for k in ks)
    got = {}
    for name, out in base.programs(srcs).items():
        if not isinstance(out, str):
            chk.add_bad(name, "the declarations do not build or run together", {"program": out.src, "errors": out.err[-2000:]}); continue
        for line in out.splitlines():
            k, rest = line.split(" ", 1); got[int(k)] = rest
    events = []
    for k, j in enumerate(jobs):
        ref = at[j["w"]]
        e = {"key": "%s:%s" % (j["syn"], unreal(j["src"])), "syn": j["syn"], "i": j["i"], "e": j["e"], "t": j["t"], "b": j["b"], "must": j["must"],
             "ref": ref.get("sc", [99] * 4), "x": number(j["x"], j["t"]), "acc": acc[k][0]}
        if acc[k][0]:
            if k not in got: continue
            q = parse_show(got[k]); e.update(d=q["d"], s=q["s"], ot=q["t"], ob=q["b"], v=q["v"])
        events.append(e)
    chk.notes["declarations"] = {s: "%d of %d accepted" % (sum(e["acc"] for e in events if e["syn"] == s), sum(1 for e in events if e["syn"] == s)) for s in sorted({e["syn"] for e in events})}
    chk.validate("DeclareCheck", events)
