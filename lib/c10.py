"""C10: deserialisation from JSON (macro and serde) and from text."""
from rescale import *
from c07 import join

HEADS = HEADR + r'''
use whippyunits::*;
fn res<P: Probe, E: std::fmt::Display>(r: Option<Result<P, E>>) -> String where P::V: Num {
    match r { None => "panic".into(), Some(Ok(q)) => format!("ok {}", show(q)), Some(Err(e)) => if guard(|| e.to_string()).is_some() { "err".into() } else { "panic".into() } }
}
'''
WS = {"{tab}": "\t", "{nl}": "\n", "{nbsp}": "\u00a0"}
def ws(s):
    for k, v in WS.items(): s = s.replace(k, v)
    return s
def jstr(s, k):
    if k % 7 == 3 and s: return '"\\u%04x' % ord(s[0]) + json.dumps(s[1:])[1:]
    return json.dumps(s, ensure_ascii=k % 2 == 0)
def render(doc, k):
    out = []
    for i, t in enumerate(doc):
        if t["k"] == "str": out.append(jstr(join(t["u"], k) if t["c"] == "$" else t["c"], k + i))
        else: out.append(t["x"])
        k = (k * 1103515245 + 12345) % 2147483648
        if (k >> 16) % 4 == 0: out.append([" ", "\n", "\t", "  "][(k >> 20) % 4])
        elif t["k"] in ("num", "lit", "junk") and i + 1 < len(doc) and doc[i + 1]["k"] in ("num", "lit", "junk"): out.append(" ")
    return "".join(out)

def robust(n):
    """Inputs of extreme size or content: only an answer is required.  (Text without a space after
    its number is read in quadratic time, so those inputs stay short.)"""
    deep = ["(" * k + "m" + ")" * k for k in (90, 120, 200, 1000, 100000)] + ["(" * k for k in (127, 100000)] + ["m" + "*m" * k for k in (400, 600, 5000, 200000)] + \
           ["m" + "/s" * 100000, "m^" * 5000 + "2", "m" * 100000, "(" * 20000 + "m" + "^1)" * 20000, "\u0000", "m\u0000", "\ufeffm", "\u03a9" * 50, "\u00b5m", "m\u0301", "\U0001f600", "m\u200b/s", "'", '"', "\\", "r#m", "r#\"m\"#", "b'm'", "/*", "*/", "m/*", "{", "m)", "]", "#![m]", "m!()", "$", "1_0", "1.0e10", "99999999999999999999999999", "m99999999999999999999", "m^99999999999999999999999", "m^-", "m^(2)", "0m", "m0", "m^0"]
    docs = ["[" * 100000, '{"value":' * 2000, '{"value":1,"unit":' + "[" * 500 + "]" * 500 + "}", "\ufeff{}", '{"value":1e400,"unit":"m"}', '{"value":-1e400,"unit":"m"}', '{"value":' + "9" * 400 + ',"unit":"m"}', '{"value":1,"unit":"\\ud800"}', '{"value":1,"unit":"m\\u0000"}', "\x00", "nan", '{"value":NaN,"unit":"m"}', '{"\\u0000":1}']
    out = []
    for u in deep:
        out.append((1, "1 " + u)); out.append((1, "1" + u[:3000])); out.append((0, json.dumps({"value": 1, "unit": u}))); out.append((2, json.dumps({"value": 1.5, "unit": u}, ensure_ascii=False)))
    for d in docs: out += [(0, d), (1, d[:3000]), (2, d)]
    for s in ["", " ", "5", "m", "inf m", "nan m", "-inf m", "infinity m", "1e999 m", "1e-999 m", "\u0661 m", "5\u3000m", "5\u2028m", "\u00bd m", "1e5e5 m", "5.0e-3e m", "--", "5 " * 20000, "9" * 5000 + " m", "0." + "0" * 5000 + "1 m", "1e" + "9" * 500 + " m"]: out += [(1, s), (0, s)]
    return out

def check(chk):
    nt, per = (240, 80) if chk.thorough else (96, 36)
    jobs, _ = chk.tlc("SerialGen", "CONSTANTS Seed = %d NTargets = %d PerTarget = %d\nINIT Init\nNEXT Next\n" % (chk.seed, nt, per))
    jobs.sort(key=lambda j: j["n"])
    base = Base(chk)
    fns, lines, meta = {}, [], []
    for n, j in enumerate(jobs):
        t = j["t"]
        if t["k"] == "u":
            u = join(t["ts"], 3).replace("//", "/ /").replace("/*", "/ *")
            fns[n] = "fn t%d(r: u8, s: &str) -> String { match r { 0 => res(guard(|| from_json!(s, %s%s))), 1 => res(guard(|| from_string!(s, %s%s))), _ => res(guard(|| serde_json::from_str::<unit!(%s)>(s))) } }\n" % (n, u, ", f64" if n % 4 == 0 else "", u, ", f64" if n % 8 < 4 else "", u)
        else:
            fns[n] = "fn t%d(r: u8, s: &str) -> String { if r == 3 { let (x, u) = s.split_once('\\n').unwrap(); let x: f64 = x.parse().unwrap(); return res(guard(|| whippyunits::serialization::deserialize_core::<%s>(x, u).map(<%s>::new))) } res(guard(|| serde_json::from_str::<%s>(s))) }\n" % (n, ", ".join("{%d}" % e for e in t["d"] + t["s"]), *[qtype(t["d"] + t["s"], "f64", t["b"])] * 2)
        for k, i in enumerate(j["ins"]):
            doc = render(i["doc"], k + n)
            if t["k"] == "u":
                lines.append((n, 0 if k % 2 else 2, doc)); meta.append((j, i, "json" if k % 2 else "serde"))
                text = ws(i["lead"] + i["num"] + i["sep"]) + join(i["u"], k) + ws(i["trail"])
                lines.append((n, 1, text)); meta.append((j, i, "text"))
            else:
                lines.append((n, 2, doc)); meta.append((j, i, "serde"))
                if i["nok"] and k % 2: lines.append((n, 3, i["num"] + "\n" + join(i["u"], k))); meta.append((j, i, "core"))
    us = [n for n, j in enumerate(jobs) if j["t"]["k"] == "u"]
    for k, (r, s) in enumerate(robust(0)): lines.append((us[k % len(us)], r, s)); meta.append(None)
    stdin = "".join(json.dumps([k, n, r, s]) + "\n" for k, (n, r, s) in enumerate(lines))
    srcs = {}
    for p in range(NCPU):
        ns = [n for n in fns if n % NCPU == p]
        srcs["serial%d" % p] = HEADS + "".join(fns[n] for n in ns) + r'''fn main() { quiet(); for l in std::io::stdin().lines() { let (k, n, r, s): (usize, usize, u8, String) = serde_json::from_str(&l.unwrap()).unwrap();
          if n %% %d != %d { continue } println!("{}", k);
          // a thread with the ordinary stack of a thread
          let a = std::thread::spawn(move || match n { %s _ => unreachable!() }).join().unwrap(); println!("{}", a); } }''' % (NCPU, p, " ".join("%d => t%d(r, &s)," % (n, n) for n in ns))
    got = {}
    for name, out in base.programs(srcs, stdin=stdin).items():
        if isinstance(out, CompileFailure):
            chk.add_bad(name, "deserialisation to well-formed units does not compile", {"program": out.src, "errors": out.err[-3000:]}); continue
        text = out if isinstance(out, str) else out.out
        ls = text.splitlines()
        for a, b in zip(ls[::2], ls[1::2]): got[int(a)] = b
        if not isinstance(out, str):
            k = int(ls[-1]) if len(ls) % 2 else None
            chk.add_bad("input:%s" % (lines[k][2][:60] if k is not None else "?"), "reading an input does not end normally (%s)" % out.rc, {"input": lines[k][2][:2000] if k is not None else None, "stderr": out.err[-1000:]})
    events, panics = [], 0
    for k, (n, r, s) in enumerate(lines):
        if k not in got: continue
        key = "%s:%s" % (["json", "text", "serde", "core"][r], unreal(s)[:200])
        if got[k] == "panic": chk.add_bad(key, "panics", {"input": s[:2000], "target": fns[n]}); continue
        if meta[k] is None: continue
        j, i, how = meta[k]; t = j["t"]
        e = {"key": key, "how": how, "tk": t["k"], "d": t["d"], "b": t.get("b", "()"), "r": {"ok": False}}
        if t["k"] == "q": e["s"] = t["s"]
        else: e["te"] = t["e"]
        if got[k] != "err":
            q = parse_show(got[k][3:]); e["r"] = {"ok": True, **q}
        if how in ("text", "core"):
            e.update(nok=i["nok"], u=i["u"])
            e["x"] = jfloat(float(i["num"])) if i["nok"] else jint(0)
        else:
            e["doc"] = [dict({"k": x["k"], "x": x["x"]}, **({"c": x["c"], "u": x["u"]} if x["k"] == "str" else {"v": jfloat(float(x["x"]))} if x["k"] == "num" else {})) for x in i["doc"]]
        events.append(e)
    chk.notes["inputs"] = {h: sum(1 for e in events if e["how"] == h) for h in ("json", "text", "serde", "core")}
    chk.notes["inputs"]["robustness"] = sum(1 for m in meta if m is None)
    chk.notes["accepted"] = sum(1 for e in events if e["r"]["ok"])
    chk.validate("SerialCheck", events)
