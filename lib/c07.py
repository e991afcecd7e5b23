"""C07: unit expressions."""
from rescale import *
from accept import accepted

SRC = RT + r'''
use whippyunits_core::*;
fn vec<T: std::fmt::Display>(v: &[T]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
fn main() {
    quiet();
    for line in std::io::stdin().lines() {
        let w: String = serde_json::from_str(&line.unwrap()).unwrap();
        let w = w.as_str();
        let r = guard(|| match syn::parse_str::<UnitExpr>(w) {
            Ok(e) => { let r = e.evaluate_with_mode(EvaluationMode::Tolerant); let (cf, off) = calculate_unit_conversion_factors(&e);
                       Some((r.dimension_exponents.0, r.scale_exponents.0, cf, off)) }
            Err(_) => None });
        println!("{}", match r { None => "{\"panic\":true}".to_string(), Some(None) => "{\"acc\":false}".to_string(),
            Some(Some((d, s, cf, off))) => format!("{{\"acc\":true,\"d\":{},\"sc\":{},\"cf\":\"{}\",\"off\":\"{}\"}}", vec(&d), vec(&s), cf.tok(), off.tok()) });
        let r = guard(|| whippyunits::serialization::parse_ucum_unit(w).ok().map(|(d, s)| (d.0, s.0)));
        println!("{}", match r { None => "{\"panic\":true}".to_string(), Some(None) => "{\"acc\":false}".to_string(),
            Some(Some((d, s))) => format!("{{\"acc\":true,\"d\":{},\"sc\":{}}}", vec(&d), vec(&s)) });
    }
}
'''
def join(ts, n):
    """The text of a token sequence; n chooses where optional blanks stand."""
    out = ""
    for a, b in zip(ts, ts[1:] + [None]):
        out += a["x"]
        if b is None: break
        word = lambda t: t["k"] in ("id", "int")
        need = (word(a) and word(b)) or "junk" in (a["k"], b["k"]) or "." in (a["x"], b["x"]) and "int" in (a["k"], b["k"])
        n = (n * 1103515245 + 12345) % 2147483648
        if need or (n >> 16) % 3 == 0: out += " "
    return real(out)

def in_source(ts):
    """Can the text stand inside a macro call of a program?"""
    depth = 0
    for t in ts:
        if t["k"] == "junk" or t["x"] == ",": return False
        depth += {"(": 1, ")": -1}.get(t["x"], 0)
        if depth < 0: return False
    return depth == 0 and len(ts) > 0 and len(ts) < 60

def observed(chk, base, texts, name):
    out = base.programs({name: SRC}, stdin="".join(json.dumps(t) + "\n" for t in texts))[name]
    if isinstance(out, CompileFailure): raise ToolError(out.err[-3000:])
    if isinstance(out, RunFailure):
        n = len(out.out.splitlines()) // 2
        chk.add_bad("text:%d" % n, "reading a unit expression does not end normally (%s)" % out.rc, {"text": texts[n] if n < len(texts) else None, "stderr": out.err[-1500:]})
        return None
    res = []
    for line in out.splitlines():
        r = json.loads(line)
        for k in ("cf", "off"):
            if k in r: r[k] = jnum(r[k])
        res.append(r)
    return list(zip(res[::2], res[1::2]))

def check(chk):
    n = 6000 if chk.thorough else 1500
    jobs, _ = chk.tlc("ExprGen", "CONSTANTS Seed = %d N = %d NFamilies = 3\nINIT Init\nNEXT Next\nINVARIANT ReadBack\n" % (chk.seed, n))
    jobs.sort(key=lambda j: j["c"])
    base = Base(chk)
    words = sorted({t["w"] for j in jobs for t in j["ts"] if t["k"] == "id"})
    texts = [join(j["ts"], k + 1) for k, j in enumerate(jobs)]
    res = observed(chk, base, [real(w) for w in words] + texts, "exprs")
    if res is None: return
    zero = {"d": [0] * 8, "sc": [0] * 4, "cf": jfloat(1.0), "off": jfloat(0.0)}
    at = {w: {k: r[k] for k in ("d", "sc", "cf", "off")} if r.get("acc") else zero for w, (r, _) in zip(words, res)}
    events = []
    def event(how, j, text, r):
        ats = {t["w"]: at[t["w"]] for t in j["ts"] if t["k"] == "id"}
        if r.get("panic"):
            chk.add_bad("%s:%s" % (how, text), "panics", {"text": text}); return
        events.append({"key": "%s:%s" % (how, text), "how": how, "ts": j["ts"], "at": ats or {"m": zero}, **r})
    for j, text, (core, run) in zip(jobs, texts, res[len(words):]):
        # the first route is syn's own reader: comments are comments there
        if "//" not in text and "/*" not in text: event("core", j, text, core)
        event("runtime", j, text, run)
    # the macros
    src = [(j, join(j["ts"], 7)) for j in jobs if in_source(j["ts"])]
    src = [(j, t.replace("//", "/ /").replace("/*", "/ *")) for j, t in src if j["c"][0] != -1 or j["c"][1] % 4 == 0]
    lines = ["fn u%d() { let _ = <unit!(%s) as Probe>::ex(); }" % (k, t) for k, (j, t) in enumerate(src)] + \
            ["fn q%d() { let _ = quantity!(1.0, %s, f64); }" % (k, t) for k, (j, t) in enumerate(src)]
    head = HEADR + "use whippyunits::*;\n"
    acc = accepted(chk, base, head, lines)
    ua, qa = acc[:len(src)], acc[len(src):]
    srcs = {}
    for s in range(NCPU):
        body, main = [], []
        for k in range(s, len(src), NCPU):
            t = src[k][1]
            if ua[k][0]: body.append("fn u%d() { println!(\"u%d {:?}\", <unit!(%s) as Probe>::ex()); }\n" % (k, k, t)); main.append("u%d();" % k)
            if qa[k][0]: body.append("fn q%d() { println!(\"q%d {}\", show(quantity!(1.0, %s, f64))); }\n" % (k, k, t)); main.append("q%d();" % k)
        srcs["macros%d" % s] = head + "".join(body) + "fn main() { %s }" % " ".join(main)
    got = {}
    for name, out in base.programs(srcs).items():
        if not isinstance(out, str):
            chk.add_bad(name, "the macro program does not build or run", {"program": out.src, "errors": out.err[-2000:]}); continue
        for line in out.splitlines():
            k, rest = line.split(" ", 1); got[k] = rest
    for k, (j, t) in enumerate(src):
        for how, c, a in (("unit!", "u", ua[k]), ("quantity!", "q", qa[k])):
            if not a[0]: event(how, j, t, {"acc": False}); continue
            r = got.get("%s%d" % (c, k))
            if r is None: continue
            if c == "u": ex = json.loads(r); event(how, j, t, {"acc": True, "d": ex[:8], "sc": ex[8:]})
            else:
                q = parse_show(r); event(how, j, t, {"acc": True, "d": q["d"], "sc": q["s"], "cf": q["v"], "off": jfloat(0.0)})
    chk.notes["expressions"] = {h: sum(1 for e in events if e["how"] == h) for h in ("core", "runtime", "unit!", "quantity!")}
    chk.notes["accepted"] = sum(1 for e in events if e["acc"])
    chk.validate("ExprCheck", events)
