"""Rendering of Quantity chains to Rust, and their recorded histories."""
import json
from common import *
from rust_rt import *

HEAD = RT + "%(probe)s" + BRANDS + r'''
use std::hint::black_box as bb;
fn st<P: Probe + Copy>(p: P) where P::V: Num { println!("{}", show(p)); }
macro_rules! step { ($q:ident, $e:expr) => { let $q = match guard(|| $e) { Some(x) => x, None => { println!("panic"); return } }; st($q); } }
'''

def render_chain(ch):
    t, b = ch["t"], ch["b"]
    L = ["fn c%d() { println!(\"#%d\");" % (ch["c"], ch["c"])]
    for o in ch["ops"]:
        op, v = o["op"], lit(o["v"], t)
        q = "<%s>::new(%s)" % (qtype(o["e"], t, b), v)
        if op == "new": L.append("let q = %s; st(q);" % q); continue
        if op == "neg": L.append("step!(q, -q);"); continue
        sym, kind = op[:-1], op[-1]
        if sym.endswith("="):
            L.append("step!(q, { let mut m = q; m %s %s; m });" % (sym, q if kind == "q" else v))
        elif kind == "l": L.append("step!(q, %s %s q);" % (v, sym))
        else: L.append("step!(q, q %s %s);" % (sym, q if kind == "q" else v))
    return "\n  ".join(L) + "\n}\n"

def sources(chains, cge=False, shards=NCPU, prefix="chain", attrs=""):
    out = {}
    for s in range(shards):
        part = chains[s::shards]
        if part:
            src = attrs + HEAD % {"probe": probe(cge)} + "".join(map(render_chain, part))
            src += "fn main() { quiet(); %s }\n" % " ".join("c%d();" % c["c"] for c in part)
            out["%s%d" % (prefix, s)] = src
    return out

def reg_of(ch, o):
    return {"d": o["e"][:8], "s": o["e"][8:], "t": ch["t"], "b": ch["b"], "v": vnum(o["v"], ch["t"])}

def event(ch, o, shown):
    op = o["op"]
    out = {"v": {"k": "panic"}} if shown == "panic" else parse_show(shown)
    key = "%s:%s:%s" % (ch["t"], op, ch["c"])
    if op == "new": return {"key": key, "op": "new", "k": "u", "q": reg_of(ch, o), "o": out}
    if op == "neg": return {"key": key, "op": "neg", "k": "u", "o": out}
    e = {"key": key, "op": op[:-1], "k": op[-1], "o": out}
    if op[-1] == "q": e["q"] = reg_of(ch, o)
    else: e["x"] = vnum(o["v"], ch["t"])
    return e

def collect(chk, chains, outs, label):
    """Outputs of the chain programs -> traces; a program that does not compile is a violation."""
    by = {c["c"]: c for c in chains}
    traces = []
    for name, out in outs.items():
        if isinstance(out, CompileFailure):
            chk.add_bad("%s:%s" % (label, name), "a chain of accepted operations does not compile", {"program": out.src, "errors": compile_errors_with_lines(out.err)})
            continue
        if isinstance(out, RunFailure):
            chk.add_bad("%s:%s" % (label, name), "program failed", {"program": out.src, "stderr": out.err[-2000:]}); continue
        cur = None
        for line in out.splitlines():
            if line.startswith("#"):
                cur = by[int(line[1:])]; n = 0
                traces.append({"key": "chain%d" % cur["c"], "ev": []})
            else:
                traces[-1]["ev"].append(event(cur, cur["ops"][n], line)); n += 1
    return traces
