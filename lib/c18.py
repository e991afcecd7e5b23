"""C18: the stable build and the build using generic constant expressions implement the same algebra."""
import copy, functools, importlib
from chains import *
from accept import accepted
import c01, c02

class Part(Check):
    """A part of another property's check, run against the generic-constant build and reported under this property."""
    def __init__(self): raise ToolError("not built this way")
    def tlc(self, module, cfg, name=None, **kw):
        if module == "IntRescale": return [], 0     # does not involve the code
        out, n = super().tlc(module, cfg, name, **kw)
        if self.stride > 1 and module.endswith("Gen"):
            out.sort(key=lambda j: json.dumps(j, sort_keys=True))
            out = out[self.seed % self.stride::self.stride]
        return out, n
    def add_bad(self, key, why, detail): super().add_bad("%s:%s" % (self.label, key), why, detail)

def part(chk, name, stride, build=dict(cge=True), what="cge"):
    p = copy.copy(chk); p.__class__ = Part
    p.label, p.stride, p.notes, p.thorough = what + ":" + name, stride, {}, False
    p.work = os.path.join(chk.work, what + "-" + name); os.makedirs(p.work)
    mod = importlib.import_module(name)
    wide = functools.partial(Base, **build)
    saved = [(m, m.Base) for m in list(sys.modules.values()) if m is not sys.modules[__name__] and getattr(m, "Base", None) is Base and m.__name__ not in ("common", "c19")]
    for m, _ in saved: m.Base = wide
    try: mod.check(p)
    finally:
        for m, b in saved: m.Base = b
    chk.states, chk.transitions, chk.traces = p.states, p.transitions, p.traces
    return p.notes

def twin(chk, base, cge):
    """The same programs on both builds."""
    th = chk.thorough
    chains, _ = chk.tlc("QuantityGen", "CONSTANTS Seed = %d NChains = %d ChainLen = %d NWalks = 34 OnlySame = FALSE\nINIT Init\nNEXT Next\n" % (chk.seed, 5000 if th else 560, 10))
    chains.sort(key=lambda c: c["c"])
    both = []
    for b in (base, cge):
        ts = collect(chk, chains, b.programs(sources(chains, prefix="twin")), "twin:" + b.toolchain)
        if ts: chk.validate_traces("QuantityCheck", ts, name="QuantityCheck-" + b.toolchain)
        both.append({t["key"]: t["ev"] for t in ts})
    events = [{"key": k, "ev": "history", "stable": [e["o"] for e in both[0][k]], "cge": [e["o"] for e in both[1][k]]} for k in both[0] if k in both[1]]
    cases, _ = chk.tlc("GuardGen", "CONSTANTS Seed = %d PerCase = %d\nINIT Init\nNEXT Next\n" % (chk.seed, 40 if th else 4))
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    lines = [c01.line(n, e) for n, e in enumerate(cases)]
    head = RT + probe() + BRANDS
    res = [accepted(chk, b, head, lines) for b in (base, cge)]
    for b, r in zip((base, cge), res):
        ev = [{"key": "%s:%s:%s:%s:%d" % (b.toolchain, e["k"], e["op"], e["p"]["t"], e["df"]), **e, "acc": a, **({"err": w} if w else {})} for e, (a, w) in zip(cases, r)]
        chk.validate("GuardCheck", ev, name="GuardCheck-" + b.toolchain)
    events += [{"key": "program:%s:%s:%d" % (e["op"], e["p"]["t"], e["df"]), "ev": "program", "stable": x[0], "cge": y[0], "src": l} for e, l, x, y in zip(cases, lines, *res)]
    # users of the generic-constant build switch the compiler feature on themselves; slow, so fewer cases
    F = ["-Zcrate-attr=feature(generic_const_exprs)"]
    few = list(range(chk.seed % 12, len(cases), 3 if th else 12))
    feat = accepted(chk, cge, head, [lines[n] for n in few], prefix="feat", extra=F)
    events += [{"key": "feature:%s:%s:%d" % (cases[n]["op"], cases[n]["p"]["t"], cases[n]["df"]), "ev": "program", "stable": res[0][n][0], "cge": a, "src": lines[n]} for n, (a, _) in zip(few, feat)]
    short = [dict(c, ops=c["ops"][:4]) for c in chains if len(c["ops"]) > 3][:: 40 if th else 20]
    fs = collect(chk, short, cge.programs({k: v for c in short for k, v in sources([c], shards=1, prefix="feat%d_" % c["c"]).items()}, extra=F), "feature")
    events += [{"key": "feature:" + t["key"], "ev": "history", "stable": [e["o"] for e in both[0][t["key"]]][:len(t["ev"])], "cge": [e["o"] for e in t["ev"]]} for t in fs if t["key"] in both[0]]
    chk.notes["twins"] = {"histories": len(both[0]), "programs": len(cases)}
    return events

def wide(chk, cge):
    """All of the sixteen-bit exponents."""
    jobs, _ = chk.tlc("WideGen", "CONSTANTS Seed = %d NGood = %d NBad = %d ChainLen = 5\nINIT Init\nNEXT Next\n" % ((chk.seed, 6000, 3000) if chk.thorough else (chk.seed, 700, 400)))
    jobs.sort(key=lambda j: j["c"])
    good, bad = [j for j in jobs if j["k"] == "good"], [j for j in jobs if j["k"] == "bad"]
    ts = collect(chk, good, cge.programs(sources(good, prefix="wide")), "wide")
    if ts: chk.validate_traces("QuantityCheck", ts, name="QuantityCheck-wide")
    # one operation each: those that leave the range must not compile, the first steps of the others must
    offers = [{"c": j["c"], "t": j["t"], "b": j["b"], "op": j["op"], "p": j["p"], "q": j["q"], "at": j["at"]} for j in bad]
    offers += [{"c": j["c"], "t": j["t"], "b": j["b"], "op": j["ops"][1]["op"], "p": j["ops"][0]["e"], "q": j["ops"][1]["e"], "at": 0} for j in good[:len(bad) // 4] if j["ops"][1]["op"] in ("*q", "/q", "/l")]
    def line(n, o):
        P, Q = qtype(o["p"], o["t"], o["b"]), qtype(o["q"], o["t"], o["b"])
        if o["op"] == "/l": return "fn f%d(a: %s, b: %s) { let _ = b / a; }" % (n, P, o["t"])
        return "fn f%d(a: %s, b: %s) { let _ = a %s b; }" % (n, P, Q, o["op"][0])
    res = accepted(chk, cge, RT + probe() + BRANDS, [line(n, o) for n, o in enumerate(offers)], prefix="wideacc")
    chk.notes["wide"] = {"histories": len(ts), "outside the range": len(bad)}
    return [{"key": "wide:%s:%s:%d" % (o["op"], o["t"], o["at"]), "ev": "wide", **o, "acc": a, "src": line(n, o), **({"err": w} if w else {})} for n, (o, (a, w)) in enumerate(zip(offers, res))]

# other properties' machines against the generic-constant build: one case in so many in the quick tier (0: thorough only)
PARTS = [("c03", 3), ("c04", 4), ("c05", 1), ("c06", 2), ("c08", 3), ("c09", 3), ("c11", 6), ("c15", 1), ("c07", 0), ("c10", 0), ("c12", 0), ("c13", 0), ("c14", 0)]

def check(chk):
    base, cge = Base(chk), Base(chk, cge=True)
    events = twin(chk, base, cge) + wide(chk, cge)
    if events: chk.validate("TwinCheck", events)
    c02.core_events(chk, cge, 16000)
    chk.notes["parts"] = {}
    for name, stride in PARTS:
        if not (stride or chk.thorough): continue
        chk.log("-- " + name)
        chk.notes["parts"][name] = part(chk, name, 1 if chk.thorough else stride)

