"""C12: formatting in a requested unit."""
from rescale import *
from c07 import join
import re

HEADF = HEADR + r'''
use whippyunits::*;
fn go<P: Probe>(p: P, f: impl Fn(P) -> String) -> String { guard(|| f(p)).unwrap_or("{panic}".into()) }
macro_rules! fm { ($q:expr, $u:expr, $p:expr, $w:expr) => {{ let (q, u) = ($q, $u); match ($p, $w) {
    (None, 0) => format!("{}", q.fmt(u)), (Some(p), 0) => format!("{:.*}", p, q.fmt(u)),
    (None, w) => format!("{:w$}", q.fmt(u), w = w), (Some(p), w) => format!("{:w$.p$}", q.fmt(u), w = w, p = p) } }} }
'''
def decimal(s):
    """text of a decimal number -> exact value and decimals printed"""
    m = re.fullmatch(r"([+-]?)(\d+)(?:\.(\d+))?(?:[eE]([+-]?\d+))?", s)
    if not m: return None
    p = len(m[3] or "")
    n = int(m[2] + (m[3] or ""))
    j = jint(n); 
    return {"s": -j["s"] if m[1] == "-" else j["s"], "m": j["m"], "e": int(m[4] or 0) - p}, p
def outcome(text, unit):
    t = text.strip()
    head = t.split(" ", 1)[0]
    d = decimal(head)
    if d is None or head == t: 
        if head in ("inf", "-inf", "NaN"): return {"k": "num", "x": {"s": 0, "m": [], "e": 0}, "p": -1, "unit": t[len(head):].strip() == unit.strip(), "odd": True}
        return {"k": "text", "digits": bool(t == "" or re.search(r"\d", t.replace(unit, " ")))}
    return {"k": "num", "x": d[0], "p": d[1], "unit": t[len(head):].strip() == unit.strip()}

def check(chk):
    nt, per = (240, 60) if chk.thorough else (120, 24)
    jobs, _ = chk.tlc("FormatGen", "CONSTANTS Seed = %d NTargets = %d PerTarget = %d\nINIT Init\nNEXT FNext\nINVARIANT Fitting\n" % (chk.seed, nt, per))
    jobs.sort(key=lambda j: j["n"])
    base = Base(chk)
    fns, lines, meta = {}, [], []
    for n, j in enumerate(jobs):
        t, ty = j["t"], j["ty"]
        if t["k"] == "u": T = "unit!(%s, %s)" % (join(t["ts"], 3).replace("//", "/ /").replace("/*", "/ *"), ty)
        else: T = qtype(t["d"] + t["s"], ty, t["b"])
        fns[n] = "fn t%d(v: &str, p: Option<usize>, w: usize, u: &str) -> String { type X = %s; format!(\"{}\\n{}\", show(<X>::new(v.parse().unwrap())), go(<X>::new(v.parse().unwrap()), |q| fm!(q, u, p, w))) }\n" % (n, T)
        for k, i in enumerate(j["ins"]):
            u = join(i["u"], k + n)
            lines.append((n, i["v"], i["prec"] if i["prec"] >= 0 else None, i["width"], u)); meta.append((j, i))
    # texts of extreme size or content: only an answer is required
    from c10 import robust
    for k, s in enumerate(x for r, x in robust(0) if r == 1): lines.append((k % len(jobs), jobs[k % len(jobs)]["ins"][0]["v"], None, 0, s[2:])); meta.append(None)
    stdin = "".join(json.dumps([k, *l]) + "\n" for k, l in enumerate(lines))
    srcs = {}
    for p in range(NCPU):
        ns = [n for n in fns if n % NCPU == p]
        srcs["format%d" % p] = HEADF + "".join(fns[n] for n in ns) + r'''fn main() { quiet(); for l in std::io::stdin().lines() { let (k, n, v, p, w, u): (usize, usize, String, Option<usize>, usize, String) = serde_json::from_str(&l.unwrap()).unwrap();
          if n %% %d != %d { continue } println!("{}", k);
          let a = std::thread::spawn(move || match n { %s _ => unreachable!() }).join().unwrap(); println!("{}", js(&a)); } }''' % (NCPU, p, " ".join("%d => t%d(&v, p, w, &u)," % (n, n) for n in ns))
    got = {}
    for name, out in base.programs(srcs, stdin=stdin).items():
        if isinstance(out, CompileFailure):
            chk.add_bad(name, "formatting a quantity in a unit does not compile", {"program": out.src, "errors": out.err[-3000:]}); continue
        text = out if isinstance(out, str) else out.out
        ls = text.split("\n")
        if ls[-1] == "": ls.pop()
        for a, b in zip(ls[::2], ls[1::2]): got[int(a)] = json.loads(b)
        if not isinstance(out, str):
            k = int(ls[-1]) if len(ls) % 2 else None
            chk.add_bad("unit:%s" % (lines[k][4][:60] if k is not None else "?"), "formatting does not end normally (%s)" % out.rc, {"unit": lines[k][4][:2000] if k is not None else None, "stderr": out.err[-1000:]})
    events = []
    for k, (n, v, prec, w, u) in enumerate(lines):
        if k not in got: continue
        first, text = got[k].split("\n", 1)
        key = "%s of %s in %s (%s,%d)" % (v, fns[n].split("type X = ")[1].split("; format")[0], unreal(u)[:200], prec, w)
        if text == "{panic}": chk.add_bad(key, "panics", {"unit": u[:2000]}); continue
        if meta[k] is None: continue
        j, i = meta[k]; q = parse_show(first)
        if q["v"]["k"] not in ("i", "f"): continue
        o = outcome(text, u)
        if o.pop("odd", False): o["k"] = "num"
        events.append({"key": key, "text": text[:300], "d": q["d"], "s": q["s"], "v": q["v"], "prec": i["prec"], "u": i["u"], "o": o})
    chk.notes["formatted"] = {"numbers": sum(1 for e in events if e["o"]["k"] == "num"), "refusals": sum(1 for e in events if e["o"]["k"] == "text"), "robustness": sum(1 for m in meta if m is None)}
    chk.validate("FormatCheck", events)
