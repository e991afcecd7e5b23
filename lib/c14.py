"""C14: modules of local declarators."""
from resolve import *
from accept import accepted, accepted_stable
from c06 import number, typed
from c07 import join

HEADL = HEADR + "use whippyunits::{define_unit_declarators, unit};\n" + \
    "pub fn out<P: Probe>(k: usize, f: impl FnOnce() -> P) where P::V: Num { println!(\"{} {}\", k, match guard(f) { Some(q) => show(q), None => { let e = P::ex(); format!(\"{:?} {} panic {}\", e, std::any::type_name::<P::V>(), std::any::type_name::<P::B>().replace(\" \", \"\")).replace(\", \", \",\") } }); }\n"
HEADL += "pub fn bare<P: Probe>(p: P) -> <P as Bare>::R where P: Bare { p.bare() }\npub trait Bare { type R; fn bare(self) -> Self::R; }\n" + \
    "impl<%s,V,B> Bare for Q<%s,V,B> { type R = Q<%s,V,()>; fn bare(self) -> Self::R { Quantity::new(self.unsafe_value) } }\n" % (",".join("const A%d: i16" % i for i in range(12)), *[",".join("A%d" % i for i in range(12))] * 2)
def scale_name(w):
    s = w[0] + w[1]
    return s[0].upper() + s[1:]
def definition(c):
    args = ["c%d" % c["c"]] + (["LB%d" % c["c"]] if c["brand"] else []) + ([scale_name(p["w"]) for p in c["prefs"]] if c["mode"] == "local" else [])
    return "define_unit_declarators!(%s);\n" % ", ".join(args)
def expr(j, at):
    x, t, u = j["x"], j["t"], join(j["ts"], 7)
    if j["syn"] == "mix": return "{ let a = || quantity!(1.0, %s); a() + %s }" % (u, "bare(a())" if j["bare"] else "a()")
    return {"q": "quantity!(%s, %s)" % (x, u), "qT": "quantity!(%s, %s, %s)" % (x, u, t), "m": "%s.%s()" % (typed(x, t), j["pn"] + at.get(j["name"], {}).get("plural", "")),
            "lf": x + u, "li": x + u, "lT": "%s%s_%s" % (x, u, t)}[j["syn"]]

def check(chk):
    th = chk.thorough
    objs, _ = chk.tlc("LocalGen", "CONSTANTS Seed = %d Configs = %d PerConfig = %d\nINIT Init\nNEXT Next\n" % (chk.seed, 64 if th else 16, 150 if th else 80))
    cfgs = {o["c"]: o for o in objs if o["n"] == 0}
    mods = sorted((o for o in objs if o["n"] < 0), key=lambda o: o["c"])
    jobs = sorted((o for o in objs if o["n"] > 0), key=lambda o: (o["c"], o["n"]))
    base = Base(chk)
    at = resolve(chk, base, [t["w"] for j in jobs for t in j["ts"] if t["k"] == "id"] + [j["name"] for j in jobs if j["name"]])
    zero = {"d": [0] * 8, "sc": [0] * 4, "cf": jfloat(1.0), "off": jfloat(0.0)}
    for k, j in enumerate(jobs):
        j["src"] = real(expr(j, at))
        j["line"] = "%sfn f%d() { use c%d::*; out(%d, || %s); }" % ("#[culit::culit(c%d::literals)] " % j["c"] if j["syn"][0] == "l" else "", k, j["c"], k, j["src"])
    srcs, failed = {}, {}
    # one program per module, the literals (whose macros are many) in programs of their own
    groups = {}
    for k, j in enumerate(jobs): groups.setdefault((j["c"], j["syn"][0] == "l"), []).append(k)
    acc = {}
    def ask(g):
        ks = groups[g]
        for k, a in zip(ks, accepted_stable(chk, base, HEADL + definition(cfgs[g[0]]), [jobs[k]["line"] for k in ks], prefix="acc%d%s" % (g[0], "l" if g[1] else ""), jobs=1)): acc[k] = a
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(ask, groups))
    for g, ks in groups.items():
        ks = [k for k in ks if acc[k][0]]
        srcs["local%d%s" % (g[0], "l" if g[1] else "")] = HEADL + definition(cfgs[g[0]]) + "".join(jobs[k]["line"] + "\n" for k in ks) + "fn main() { quiet(); %s }" % " ".join("f%d();" % k for k in ks)
    got = {}
    for name, out in base.programs(srcs).items():
        if not isinstance(out, str):
            chk.add_bad(name, "the declarations do not build or run together", {"program": out.src, "errors": out.err[-2000:]}); continue
        for line in out.splitlines():
            k, rest = line.split(" ", 1); got[int(k)] = rest
    events = []
    for k, j in enumerate(jobs):
        c = cfgs[j["c"]]
        e = {"op": "declare", "key": "%s%s: %s" % (" ".join(scale_name(p["w"]) for p in c["prefs"]) if c["mode"] == "local" else "brand only", "", unreal(j["src"])),
             "mode": c["mode"], "prefs": [{"i": p["i"], "p": p["p"]} for p in c["prefs"]], "b": "LB%d" % c["c"] if c["brand"] else "()",
             "ts": j["ts"], "at": {t["w"]: {a: at[t["w"]].get(a, zero[a]) for a in zero} for t in j["ts"] if t["k"] == "id"} or {"m": zero},
             "t": j["t"], "x": number(j["x"], j["t"]), "acc": acc[k][0], "syn": j["syn"], "bare": j.get("bare", False), "must": j["syn"] in ("q", "qT") or j["syn"] == "m" and c["mode"] == "local"}
        if acc[k][0]:
            if k not in got: continue
            q = parse_show(got[k]); e.update(d=q["d"], s=q["s"], ot=q["t"], ob=q["b"], v=q["v"])
        else: e["err"] = acc[k][1]
        events.append(e)
    # modules whose preferences may not do: all of a module's declarations are checked, so it is compiled alone
    def module(o): return accepted(chk, base, HEADL, [definition(o) + "fn f() { use c%d::*; %s }" % (o["c"], " ".join("let _ = quantity!(1.0, %s);" % u for u in ("kg", "m", "s", "A", "K", "mol", "cd", "rad")))], prefix="mod%d" % o["c"], jobs=1)[0]
    with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(module, mods))
    for o, (ok, why) in zip(mods, res):
        events.append({"op": "module", "key": "module %s" % " ".join(scale_name(p["w"]) for p in o["prefs"]), "prefs": [{"i": p["i"], "p": p["p"]} for p in o["prefs"]], "acc": ok, **({"err": why} if why else {})})
    chk.notes["modules"] = len(cfgs); chk.notes["modules that may not do"] = {"refused": sum(1 for r in res if not r[0]), "accepted": sum(1 for r in res if r[0])}
    chk.notes["declarations"] = {s: "%d of %d accepted" % (sum(1 for k, j in enumerate(jobs) if j["syn"] == s and acc[k][0]), sum(1 for j in jobs if j["syn"] == s)) for s in ("q", "qT", "m", "lf", "li", "lT")}
    chk.validate("LocalCheck", events)
