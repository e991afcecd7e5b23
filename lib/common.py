"""Shared machinery of the checks: TLC runs, building against /repo, numbers, verdicts."""
import json, os, re, shutil, subprocess, sys, time, struct, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PLACEHOLDERS = {"{Theta}": "Θ", "{theta}": "θ", "{mu}": "\u00b5", "{Ohm}": "\u03a9"}
NCPU = 8

class ToolError(Exception):
    pass

# characters at the edges of texts, written only (never turned back)
EDGES = {"{bom}": "\ufeff", "{nul}": "\0", "{esc}": "\x1b", "{tab}": "\t", "{nbsp}": "\u00a0", "{ls}": "\u2028", "{zwsp}": "\u200b", "{ff}": "\f", "{vt}": "\v", "{nel}": "\u0085",
         "{wide}": "\u3000", "{emoji}": "\U0001f600"}
def real(s):
    for k, v in PLACEHOLDERS.items(): s = s.replace(k, v)
    return s
def unreal(s):
    for k, v in PLACEHOLDERS.items(): s = s.replace(v, k)
    return s

# ---------------------------------------------------------------- numbers
def limbs(n):
    out = []
    while n: n, r = divmod(n, 1000); out.append(r)
    return out
def jint(n):
    return {"k": "i", "s": (n > 0) - (n < 0), "m": limbs(abs(n))}
def jf64bits(b):
    sign = -1 if b >> 63 else 1
    e = (b >> 52) & 0x7ff; m = b & ((1 << 52) - 1)
    if e == 0x7ff: return {"k": "nan" if m else ("inf" if sign > 0 else "-inf")}
    if e == 0: e = 1
    else: m |= 1 << 52
    e -= 1075
    if m == 0: return {"k": "f", "s": 0, "m": [], "e": 0, **({"z": 1} if sign < 0 else {})}
    while m % 2 == 0: m //= 2; e += 1
    return {"k": "f", "s": sign, "m": limbs(m), "e": e}
def jf32bits(b):
    return jf64bits(struct.unpack("<Q", struct.pack("<d", struct.unpack("<f", struct.pack("<I", b))[0]))[0])
def jfloat(x):
    return jf64bits(struct.unpack("<Q", struct.pack("<d", x))[0])
def jnum(tok):
    """i:<decimal> | d:<hex of f64 bits> | f:<hex of f32 bits> | panic"""
    if tok.startswith("i:"): return jint(int(tok[2:]))
    if tok.startswith("d:"): return jf64bits(int(tok[2:], 16))
    if tok.startswith("f:"): return jf32bits(int(tok[2:], 16))
    return {"k": tok.split(":")[0]}

# ---------------------------------------------------------------- check object
class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", pid + "-" + tier)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.bad = []          # (key, text, detail)
        self.notes = {}
        self.assumptions = []
        self.tlc_runs = []

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def path(self, name):
        return os.path.join(self.work, name)

    # ---- TLC
    def tlc(self, module, cfg, name=None, timeout=840, workers=NCPU, extra=(), override=True):
        """Runs TLC on spec/<module>.tla with the configuration text cfg; returns emitted objects."""
        name = name or module
        classes = java_classes() if override else None
        cfgp = self.path(name + ".cfg")
        with open(cfgp, "w") as f: f.write(cfg)
        meta = self.path(name + ".states")
        cp = (classes + ":" if classes else "") + TLA_CP
        cmd = ["java", "-Xss256m", "-Xmx12g", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8",
               "-DTLA-Library=" + SPEC, "-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-deadlock", "-config", cfgp, *extra, os.path.join(SPEC, module + ".tla")]
        t = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=SPEC)
        out = p.stdout.decode("utf-8", "replace")
        with open(self.path(name + ".out"), "w") as f: f.write(out)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        ok = p.returncode == 0 and "Error:" not in out and m
        emitted = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                body = line[3:line.rindex('"')]
                emitted.append(json.loads(body.replace('\\"', '"').replace("\\\\", "\\")))
        if m:
            self.states += int(m.group(2)); self.transitions += int(m.group(1))
        self.tlc_runs.append({"module": module, "config": name, "generated": int(m.group(1)) if m else 0,
                              "distinct": int(m.group(2)) if m else 0, "seconds": round(time.time() - t, 1)})
        if not ok:
            tail = "\n".join(out.splitlines()[-60:])
            raise ToolError("TLC failed on %s (%s):\n%s" % (module, name, tail))
        self.log("TLC %s/%s: %s generated, %s distinct, %.1fs" % (module, name, m.group(1), m.group(2), time.time() - t))
        return emitted, int(m.group(2))

    def validate(self, module, events, name=None, consts=None, what=None, replay_extra=None, shard=None):
        """Judges recorded events (dicts with a 'key') with Verdict of spec/<module>.tla."""
        name = name or module
        if not events: raise ToolError("no events for " + name)
        tp = self.path(name + ".ndjson")
        with open(tp, "w") as f:
            for e in events: f.write(json.dumps(e, separators=(",", ":")) + "\n")
        cfg = 'CONSTANT TraceFile = "%s"\nINIT Init\nNEXT Next\n' % tp
        for k, v in (consts or {}).items(): cfg += "CONSTANT %s = %s\n" % (k, v)
        emitted, distinct = self.tlc(module, cfg, name)
        if distinct != 2 * len(events):
            raise ToolError("%s: %d states for %d events: not every event was judged" % (name, distinct, len(events)))
        self.traces += len(events)
        for b in emitted:
            e = events[b["i"] - 1]
            self.add_bad(e.get("key", "?"), b["why"], {"event": e, "expected": b.get("exp"), **(replay_extra(e) if replay_extra else {})})
        self.samples += events[:: max(1, len(events) // 3)][:3]
        return emitted

    def validate_traces(self, module, traces, name=None, consts=None, replay_extra=None):
        """Judges recorded histories: each trace {"key", "ev": [...]} step by step against the machine of spec/<module>.tla."""
        name = name or module
        if not traces: raise ToolError("no traces for " + name)
        tp = self.path(name + ".ndjson")
        with open(tp, "w") as f:
            for e in traces: f.write(json.dumps(e, separators=(",", ":")) + "\n")
        cfg = 'CONSTANT TraceFile = "%s"\nINIT Init\nNEXT Next\n' % tp
        for k, v in (consts or {}).items(): cfg += "CONSTANT %s = %s\n" % (k, v)
        emitted, distinct = self.tlc(module, cfg, name)
        want = sum(len(t["ev"]) + 1 for t in traces)
        if distinct != want:
            raise ToolError("%s: %d states, expected %d: not every event was consumed" % (name, distinct, want))
        self.traces += len(traces)
        for b in emitted:
            t = traces[b["t"] - 1]
            e = t["ev"][b["l"] - 1]
            self.add_bad(e.get("key", t.get("key", "?")), b["why"],
                         {"trace": t, "at": b["l"], "event": e, "expected": b.get("exp"), **(replay_extra(t) if replay_extra else {})})
        self.samples += traces[:: max(1, len(traces) // 3)][:3]
        return emitted

    def add_bad(self, key, why, detail):
        self.bad.append((key, why, detail))

    # ---- verdict
    def finish(self, level="model_checking", extra_cov=None):
        known = load_known(self.pid)
        fresh, seen = [], set()
        for key, why, detail in self.bad:
            hit = next((k for k in known if k["key"] == key or (k["key"].endswith("*") and key.startswith(k["key"][:-1]))), None)
            if hit: seen.add(hit["key"])
            else: fresh.append((key, why, detail))
        for k in known:
            print("KNOWN-FINDING: property=%s %s%s" % (self.pid, k["text"], "" if k["key"] in seen else " (not exercised in this run)"))
        rdir = self.path("replay"); os.makedirs(rdir, exist_ok=True)
        for n, (key, why, detail) in enumerate(fresh[:40]):
            rp = os.path.join(rdir, "%03d.json" % n)
            with open(rp, "w") as f: json.dump({"property": self.pid, "key": key, "why": why, **(detail or {})}, f, indent=1, default=str)
            print("  bad: %s: %s" % (key, why))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:8] or [{"none": True}],
               "tlc_runs": self.tlc_runs, **self.notes, **(extra_cov or {})}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 1), "assumptions": self.assumptions,
              "violations": [{"key": k, "why": w} for k, w, _ in fresh[:40]]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        if fresh:
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.join(rdir, "000.json")))
            self.log("%d violations" % len(fresh))
            return 1
        self.log("%s holds on everything explored (%d events/traces, %d states)" % (self.pid, self.traces, self.states))
        return 0

def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid: out.append({"key": m.group(2), "text": m.group(3)})
    return out

_classes = None
def java_classes():
    global _classes
    if _classes: return _classes
    src = os.path.join(VERIF, "java", "BigNat.java")
    h = hashlib.sha1(open(src, "rb").read()).hexdigest()[:10]
    d = os.path.join(VERIF, "work", "classes-" + h)
    if not os.path.exists(os.path.join(d, "BigNat.class")):
        tmp = d + ".%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        r = subprocess.run(["javac", "-cp", TLA_CP, "-d", tmp, src], capture_output=True, text=True)
        if r.returncode: raise ToolError("javac: " + r.stderr)
        try: os.rename(tmp, d)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    _classes = d
    return d

# ---------------------------------------------------------------- building against /repo
class Base:
    """The library built from /repo's working tree, ready to link generated programs against."""
    def __init__(self, chk, cge=False, features=None):
        """features: None for the default ones, or the list of those to select"""
        self.chk, self.cge, self.features = chk, cge, features
        self.toolchain = "nightly" if cge else "stable"
        self.dir = os.path.join(VERIF, "harness", "base")
        self.target = os.path.join(VERIF, ("target-cge" if cge else "target") + ("" if features is None else "-" + "".join(f[0] for f in features)))
        self.env = dict(os.environ, RUSTUP_TOOLCHAIN=self.toolchain, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=self.target,
                        CARGO_TERM_COLOR="never")
        cmd = ["cargo", "build", "--offline", "--message-format=json"] + (["--features", "cge"] if cge else []) + \
              ([] if features is None else ["--no-default-features", "--features", ",".join(features)])
        t = time.time()
        p = subprocess.run(cmd, cwd=self.dir, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise ToolError("the library does not build:\n" + p.stderr.decode("utf-8", "replace")[-4000:])
        self.externs, self.dirs = {}, {os.path.join(self.target, "debug", "deps")}
        for line in p.stdout.decode().splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    self.dirs.add(os.path.dirname(f))
                    if f.endswith(".rlib") or (f.endswith(".so") and "proc-macro" in m["target"]["kind"]):
                        name = m["target"]["name"].replace("-", "_")
                        # the macros' own dependencies are built without the feature
                        if name not in self.externs or "cge" in m.get("features", ()): self.externs[name] = f
        chk.log("library built (%s) %.1fs" % (self.toolchain, time.time() - t))

    USE = ["whippyunits", "whippyunits_core", "whippyunits_proc_macros", "serde_json", "serde", "syn", "proc_macro2", "op_result", "culit"]

    def rustc_cmd(self, src, out, emit=None, extra=()):
        cmd = ["rustc", "--edition", "2024", "--cap-lints", "allow", "-Cdebuginfo=0", "-Cdebug-assertions=on", "-Copt-level=0",
               ] + [x for d in sorted(self.dirs) for x in ("-L", "dependency=" + d)]
        for c in self.USE:
            if c not in self.externs: continue
            cmd += ["--extern", "%s=%s" % (c, self.externs[c])]
            meta = self.externs[c][:-5] + ".rmeta"   # newer compilers keep metadata apart
            if self.cge and self.externs[c].endswith(".rlib") and os.path.exists(meta): cmd += ["--extern", "%s=%s" % (c, meta)]
        if emit: cmd += ["--emit", emit, "--crate-type", "bin"]
        return cmd + list(extra) + [src, "-o", out]

    def compile(self, src, out, timeout=800, extra=()):
        return subprocess.run(self.rustc_cmd(src, out, extra=extra), env=self.env, capture_output=True, text=True, timeout=timeout)

    def check_json(self, src, timeout=800, extra=()):
        """Type-checks a program; returns the list of diagnostics (rustc JSON)."""
        p = subprocess.run(self.rustc_cmd(src, src + ".rmeta", emit="metadata", extra=["--error-format=json", *extra]),
                           env=self.env, capture_output=True, text=True, timeout=timeout)
        diags = [json.loads(l) for l in p.stderr.splitlines() if l.startswith("{")]
        return p.returncode, diags

    def programs(self, named_sources, run=True, stdin=None, jobs=NCPU, timeout=800, extra=(), run_timeout=240):
        """Compiles (in parallel) and runs programs {name: source}; returns {name: stdout}.
        A program that does not compile, although the specification says it does, is returned as a CompileFailure."""
        res = {}
        def one(item):
            name, source = item
            src = self.chk.path(name + ".rs"); exe = self.chk.path(name + ".bin")
            with open(src, "w") as f: f.write(source)
            p = self.compile(src, exe, timeout, extra)
            if p.returncode: return name, CompileFailure(src, p.stderr)
            if not run: return name, ""
            try: r = subprocess.run([exe], input=stdin, capture_output=True, text=True, timeout=run_timeout)
            except subprocess.TimeoutExpired: return name, RunFailure(src, "timeout", "", "the program did not end within %d s" % run_timeout)
            os.remove(exe)
            if r.returncode: return name, RunFailure(src, r.returncode, r.stdout, r.stderr)
            return name, r.stdout
        t = time.time()
        with ThreadPoolExecutor(jobs) as ex:
            for name, out in ex.map(one, named_sources.items()): res[name] = out
        self.chk.log("%d programs compiled and run, %.1fs" % (len(named_sources), time.time() - t))
        return res

class CompileFailure:
    def __init__(self, src, err): self.src, self.err = src, err
class RunFailure:
    def __init__(self, src, rc, out, err): self.src, self.rc, self.out, self.err = src, rc, out, err

def compile_errors_with_lines(err, n=10):
    return [l for l in err.splitlines() if l.startswith("error")][:n]

def main(pid, tier, fn):
    chk = Check(pid, tier)
    try:
        rc = fn(chk)
        if rc is None: rc = chk.finish()
        sys.exit(rc)
    except ToolError as e:
        print("TOOL ERROR:", e); sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("TIMEOUT:", str(e)[:400]); sys.exit(2)
