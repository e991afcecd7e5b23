"""Asks the real type checker which of many small functions it accepts."""
from concurrent.futures import ThreadPoolExecutor
from common import *

def accepted(chk, base, head, lines, prefix="acc", jobs=NCPU, tail="fn main() {}\n", extra=()):
    """head: common source text; lines: one item per case, each on a line of its own.
    Returns [(accepted?, first error text)].  Errors the compiler places in the library only (generic
    constant expressions) are given to their cases by asking again about fewer cases."""
    res = [None] * len(lines)
    def one(s): ask(s, list(range(s, len(lines), jobs)))
    def ask(s, idx):
        if not idx: return
        src = chk.path("%s%d.rs" % (prefix, s))
        first = head.count("\n") + 1
        with open(src, "w") as f: f.write(head + "".join(lines[i].replace("\n", " ") + "\n" for i in idx) + tail)
        rc, diags = base.check_json(src, extra=extra)
        errs, stray = {}, None
        for d in diags:
            if d.get("level") != "error": continue
            hit = False
            for sp in d["spans"]:
                while sp is not None and (sp["file_name"] != src or sp["line_start"] < first):
                    sp = (sp.get("expansion") or {}).get("span")
                if sp and sp["line_start"] >= first:
                    k = sp["line_start"] - first
                    if k < len(idx):
                        errs.setdefault(k, "%s %s" % ((d.get("code") or {}).get("code"), d["message"][:200])); hit = True
                        break
            if not hit and not d["message"].startswith(("aborting", "macro expansion ignores")) and "previous error" not in d["message"]:
                if not base.cge or d["spans"] == []: raise ToolError("unplaced compiler error in %s: %s" % (src, d["message"][:500]))
                stray = "%s %s" % ((d.get("code") or {}).get("code"), d["message"][:200])
        if stray and len(idx) == 1: res[idx[0]] = (False, errs.get(0, stray)); return
        if stray:
            for k, i in enumerate(idx):
                if k in errs: res[i] = (False, errs[k])
            rest = [i for k, i in enumerate(idx) if k not in errs]
            if errs: ask(s, rest)
            else: ask(s, rest[:len(rest) // 2]); ask(s, rest[len(rest) // 2:])
            return
        if rc and not errs: raise ToolError("the compiler failed without errors on " + src)
        for k, i in enumerate(idx): res[i] = (k not in errs, errs.get(k))
    t = time.time()
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, range(jobs)))
    chk.log("%d programs type-checked, %d accepted, %.1fs" % (len(lines), sum(1 for r in res if r[0]), time.time() - t))
    return res

def accepted_stable(chk, base, head, lines, prefix="acc", jobs=NCPU, tail="fn main() {}\n", extra=(), rounds=6):
    """Errors of an early phase hide those of later ones: asks again about the accepted cases until nothing changes."""
    res = accepted(chk, base, head, lines, prefix, jobs, tail, extra)
    for _ in range(rounds):
        if all(r[0] for r in res): break
        idx = [i for i, r in enumerate(res) if r[0]]
        again = accepted(chk, base, head, [lines[i] for i in idx], prefix, jobs, tail, extra)
        if all(r[0] for r in again): break
        for i, r in zip(idx, again): res[i] = r
    return res
