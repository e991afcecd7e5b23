"""Sessions of the real lsp-proxy between a scripted editor and a scripted server."""
import os, socket, selectors, subprocess, time, array, shutil, random, re
from lspmsg import *

PATIENCE = 20.0
class Recv:
    """splits a stream into messages"""
    def __init__(self, frames): self.buf = bytearray(); self.left = frames; self.raw = bytearray(); self.junk = False
    def feed(self, data):
        """frames: how many messages to expect before everything else is raw"""
        self.buf += data; out = []
        while not self.junk:
            if self.left == 0: self.raw += self.buf; self.buf.clear(); break
            i = self.buf.find(b"\r\n\r\n")
            if i < 0:
                if len(self.buf) > 100000: self.junk = True; out.append(None)
                break
            fields = [l.split(b":", 1) for l in bytes(self.buf[:i]).split(b"\r\n")]
            cl = [f[1].strip() for f in fields if len(f) == 2 and f[0].lower() == b"content-length"]
            if len(cl) != 1 or not re.fullmatch(rb"\d{1,9}", cl[0]): self.junk = True; out.append(None); break
            n = int(cl[0])
            if len(self.buf) < i + 4 + n: break
            out.append((all(len(f) == 2 for f in fields), bytes(self.buf[i + 4:i + 4 + n])))
            del self.buf[:i + 4 + n]; self.left -= 1
        return out

class Session:
    def __init__(self, exe, fake, scen, work):
        self.s, self.exe, self.fake, self.work = scen, exe, fake, work
        self.ev = []; self.sel = selectors.DefaultSelector(); self.outq = {"out": [], "in": []}; self.hold = set(); self.t = {}
    def log(self, **e): self.ev.append(e)
    # ---- streams: out/in = direction; source fd (we write), sink fd (we read)
    def start(self):
        os.makedirs(self.work)
        sp = os.path.join(self.work, "s")
        ls = socket.socket(socket.AF_UNIX); ls.bind(sp); ls.listen(1); ls.settimeout(30)
        r = self.s["verbose"]
        env = {"PATH": self.fake + ":/usr/bin:/bin", "HOME": self.work, "FAKE_RA_SOCK": sp, "WHIPPYUNITS_VERBOSE": str(r == 1).lower(), "WHIPPYUNITS_INCLUDE_RAW": str(r == 2).lower()}
        self.p = subprocess.Popen([self.exe, "--stdio"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=self.work)
        self.ctl, _ = ls.accept(); ls.close()
        msg, anc, _, _ = self.ctl.recvmsg(1, 1000)
        fds = array.array("i"); fds.frombytes(anc[0][2][:12])
        self.ctl.setblocking(False)
        self.src = {"out": self.p.stdin.fileno(), "in": fds[1]}
        self.sink = {"out": fds[0], "in": self.p.stdout.fileno()}
        self.err = fds[2]; self.perr = self.p.stderr.fileno()
        for f in (*self.src.values(), *self.sink.values(), self.err, self.perr): os.set_blocking(f, False)
        self.errq = b""
        s = self.s
        self.recv = {d: Recv(sum(1 for m in s["msgs"] + (s["late"] if d == "in" else []) if m["d"] == d) if s["tails"][d] != "none" else -1) for d in ("out", "in")}
        self.open = {"out", "in", "perr"}; self.exited = False; self.gone = False; self.srcopen = {"out", "in"}
    def poll(self, t):
        """lets things happen for t seconds, or until something has"""
        sel = selectors.DefaultSelector()
        for d in ("out", "in"):
            if d in self.open and d not in self.hold: sel.register(self.sink[d], selectors.EVENT_READ, ("r", d))
            if self.outq[d] and d in self.srcopen: sel.register(self.src[d], selectors.EVENT_WRITE, ("w", d))
        if "perr" in self.open: sel.register(self.perr, selectors.EVENT_READ, ("p", ""))
        if self.errq and self.err is not None: sel.register(self.err, selectors.EVENT_WRITE, ("e", ""))
        if not self.gone: sel.register(self.ctl, selectors.EVENT_READ, ("c", ""))
        busy = False
        for k, _ in sel.select(t):
            what, d = k.data; busy = True
            if what == "r": self.read(d)
            elif what == "w": self.write(d)
            elif what == "p":
                x = os.read(self.perr, 65536)
                self.errtext = getattr(self, "errtext", b"") + x[:2000]
                if not x: self.open.discard("perr")
            elif what == "e":
                try: n = os.write(self.err, self.errq[:65536]); self.errq = self.errq[n:]
                except OSError: self.errq = b""
            elif what == "c":
                try: x = self.ctl.recv(1)
                except OSError: x = b""
                if not x: self.gone = True
        sel.close()
        return busy
    def read(self, d):
        try: x = os.read(self.sink[d], 1 << 16)
        except BlockingIOError: return
        if not x:
            self.open.discard(d)
            if self.recv[d].left < 0 and self.recv[d].buf and not self.tailcut.get(d): self.log(k="junk", d=d)
            if self.recv[d].left >= 0: self.log(k="raw", d=d, h=ident(bytes(self.recv[d].raw)))
            self.log(k="end", d=d); return
        for f in self.recv[d].feed(x):
            if f is None: self.log(k="junk", d=d); continue
            hdr, b = f
            self.log(k="recv", d=d, m=self.message(d, b, True), hdr=hdr, key="%s: %s" % (d, b[:300].decode("utf-8", "replace")))
    def message(self, d, b, got=False):
        m = {"h": ident(b), "json": False, "units": False, "leaves": []}
        if d == "in" and (got or b"Quantity" in b):
            o = parse(b)
            if o is not None:
                sent = None
                if got:
                    sent = self.pending.pop(0) if self.pending else None
                    if sent is not None and sent[0] == m["h"]: return m
                    sent = sent and sent[1]
                elif d == "in": self.pending.append((m["h"], o))
                try: m["json"] = True; m["leaves"] = leaves(o, sent); m["units"] = any(x["t"] for x in m["leaves"])
                except RecursionError: m["json"] = False; m["leaves"] = []
                return m
        if d == "in":
            if got: self.pending and self.pending.pop(0)
            else: self.pending.append((m["h"], None))
        return m
    pending = None
    def write(self, d):
        q = self.outq[d]
        while q:
            kind, x = q[0]
            if kind == "b":
                try: n = os.write(self.src[d], x)
                except BlockingIOError: return
                except OSError: q.clear(); return
                if n < len(x): q[0] = ("b", x[n:]); return
                q.pop(0)
            elif kind == "m": q.pop(0); self.log(k="send", d=d, m=self.message(d, x), key="%s: %s" % (d, x[:300].decode("utf-8", "replace")))
            elif kind == "raw": q.pop(0); self.log(k="sendraw", d=d, h=x)
            elif kind == "pause":
                if x is None: q[0] = ("pause", time.time() + 0.002); return
                if time.time() < x: return
                q.pop(0)
            elif kind == "close":
                q.pop(0); self.shut(d)
    def shut(self, d):
        if d in self.srcopen:
            self.srcopen.discard(d)
            self.log(k="shut", side="editor" if d == "out" else "server")
            if d == "out": self.p.stdin.close()
            else: os.close(self.src["in"])
    def quit_server(self):
        """the server process ends"""
        self.shut("in")
        if self.err is not None: os.close(self.err); self.err = None
        if "out" in self.open: self.open.discard("out"); os.close(self.sink["out"])
        try: self.ctl.send(b"x")
        except OSError: pass
    def pump(self, cond, patience=None):
        end = time.time() + (patience or PATIENCE)
        while not cond():
            if time.time() > end: return False
            self.poll(0.004)
            for d in ("out", "in"):
                if self.outq[d] and self.outq[d][0][0] != "b": self.write(d)
        return True
    def cut(self, m, r):
        """a message as chunks"""
        b = body(m["kind"], r, m["size"]); f = frame(b, m["form"])
        h = len(f) - len(b)
        pts = []
        for c in m["cuts"]:
            x = c["x"]
            at = {"first": 1, "name": 1 + x % 13, "colon": f.index(b":") + x % 2, "digits": f.index(b":") + 2 + x % 3, "cr": f.index(b"\r") + 1, "lf": f.index(b"\r") + 2, "blank": h - 1 - x % 2, "body": h,
                  "inside": h + (x * 7919) % max(1, len(b)), "letter": next((h + i for i in range(x % max(1, len(b)), len(b)) if b[i] >= 128 and b[i] < 192), h + 1), "last": len(f) - 1}[c["at"]]
            if 0 < at < len(f): pts.append((at, c["pause"]))
        q = []; p = 0
        for at, pause in sorted(set(pts)):
            if at > p: q.append(("b", f[p:at])); p = at
            if pause: q.append(("pause", None))
        q.append(("m", b)); q.append(("b", f[p:]))   # counts as sent once its last bytes are on their way
        return q
    def enqueue(self, d, items, glue=False):
        q = self.outq[d]
        # a glued message shares its first write with the end of the one before
        if glue and q and q[-1][0] == "b":
            i = [k for k, _ in items].index("b")
            items[i] = ("b", q.pop()[1] + items[i][1])
        q.extend(items)
    def sent(self, d): return not self.outq[d]
    def delivered(self, d): return d not in self.open or sum(1 for e in self.ev if e["k"] == "recv" and e["d"] == d) >= sum(1 for e in self.ev if e["k"] == "send" and e["d"] == d)
    def run(self):
        self.pending = []; self.tailcut = {}
        s = self.s; r = random.Random(s["n"] * 1000003)
        self.start()
        try:
            u, c = s["upset"], s["closing"]
            if u == "hold-editor": self.hold = {"in"}
            if u == "hold-server": self.hold = {"out"}
            if u == "hold-both": self.hold = {"in", "out"}
            half = len(s["msgs"]) // 2
            for i, m in enumerate(s["msgs"]):
                if i == half:
                    if u == "stderr-close": os.close(self.err); self.err = None
                    if u == "stderr-bytes": self.errq = b"warn \xff\xfe no utf8\n and no newline \x80"
                    if u == "stderr-flood": self.errq = b"y" * 300000
                self.enqueue(m["d"], self.cut(m, random.Random(m["seed"] * 31 + m["size"])), m["glue"])
            # a held receiver does not hold up the other direction
            for d in ("out", "in"):
                if d not in self.hold and not self.pump(lambda: self.sent(d) and self.delivered(d)): self.log(k="late", d=d); return
            self.hold = set()
            for d in ("out", "in"):
                if not self.pump(lambda: self.sent(d) and self.delivered(d)): self.log(k="late", d=d); return
            late = [x for m in s["late"] for x in self.cut(m, random.Random(m["seed"] * 31 + m["size"]))]
            def tailof(d):
                k = s["tails"][d]
                if k == "none": return []
                t = tail(k, r); return [("raw", ident(t)), ("b", t)]
            cutoff = [("b", frame(b'{"jsonrpc":"2.0","method":"unfinished"}')[:-5 - r.randrange(40)])]
            if c == "cut-out" and s["tails"]["out"] == "none": self.enqueue("out", cutoff); self.tailcut["out"] = True
            if c == "cut-in" and s["tails"]["in"] == "none": late = late + cutoff; self.tailcut["in"] = True
            self.outq["out"] += tailof("out"); late = late + tailof("in")
            if not self.pump(lambda: self.sent("out")): self.log(k="late", d="out"); return
            if c in ("editor", "editor-late", "cut-out", "mute", "deaf"):
                if c == "editor": self.enqueue("in", late)       # the server is still talking
                self.outq["out"].append(("close", None)); self.write("out")
                if c == "deaf":
                    self.log(k="shut", side="editor-reading"); self.open.discard("in"); self.p.stdout.close()
                    self.enqueue("in", late)
                if c == "mute": self.enqueue("in", late)
                if not self.pump(lambda: "out" not in self.open or self.p.poll() is not None): self.log(k="hang"); return
                if c in ("editor-late", "cut-out"): self.enqueue("in", late)
                if c != "mute":
                    if not self.pump(lambda: self.sent("in") or self.p.poll() is not None): self.log(k="late", d="in"); return
                    self.quit_server()
            elif c in ("server", "server-busy", "cut-in"):
                self.enqueue("in", late)
                if c == "server-busy":
                    self.enqueue("out", self.cut({"kind": "request", "size": 300000, "form": "plain", "cuts": []}, r)[1:])   # never read
                    self.hold = {"out"}; self.tailcut["out"] = True
                if not self.pump(lambda: self.sent("in")): self.log(k="late", d="in"); return
                self.quit_server()
            elif c == "crash":
                self.shut("out"); self.log(k="shut", side="editor-reading"); self.open.discard("in"); self.p.stdout.close()
                self.pump(lambda: "out" not in self.open or self.p.poll() is not None); self.quit_server()
            if not self.pump(lambda: self.p.poll() is not None and not (self.open & {"in"}) and self.gone): 
                if self.p.poll() is None: self.log(k="hang"); return
            self.pump(lambda: not ((self.open - self.hold) & {"in", "out"}), 2)
            # when the server is still there, it had no end of its input to see
            self.log(k="exit", clean=self.p.returncode >= 0 and b"panicked at" not in getattr(self, "errtext", b""), gone=self.gone)
        finally:
            try: self.p.kill()
            except OSError: pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.p.stderr):
                try: f.close()
                except OSError: pass
            for d in ("in",):
                if d in self.srcopen: os.close(self.src["in"])
            if "out" in self.open or "out" in self.hold:
                try: os.close(self.sink["out"])
                except OSError: pass
            if self.err is not None:
                try: os.close(self.err)
                except OSError: pass
            try: self.ctl.send(b"x")
            except OSError: pass
            self.ctl.close(); shutil.rmtree(self.work, ignore_errors=True)
        
def run_session(exe, fake, scen, work):
    x = Session(exe, fake, scen, work)
    x.run()
    return {"key": "session %d (%s, %s)" % (scen["n"], scen["closing"], scen["upset"]), "ev": x.ev}
