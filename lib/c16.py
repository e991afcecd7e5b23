"""C16: the language-server relay."""
import multiprocessing, tempfile
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
from common import *
from lspio import run_session

def build_proxy(chk):
    """the proxy, built from /repo's working tree"""
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    tgt = os.path.join(VERIF, "target-lsp")
    p = subprocess.run(["cargo", "build", "--offline", "--manifest-path", REPO + "/lsp-proxy/Cargo.toml", "--bin", "lsp-proxy", "--target-dir", tgt], env=env, capture_output=True, text=True)
    if p.returncode: raise ToolError("the proxy does not build:\n" + p.stderr[-3000:])
    chk.log("proxy built")
    return os.path.join(tgt, "debug", "lsp-proxy")
STUCK = None
def common_counter(v): global STUCK; STUCK = v
def work(a):
    # a proxy that gets stuck again and again need not be waited for in every session
    if STUCK.value >= 24: return None
    t = run_session(*a)
    if any(e["k"] in ("late", "hang") for e in t["ev"]):
        with STUCK.get_lock(): STUCK.value += 1
    return t
def check(chk):
    exe = build_proxy(chk)
    fake = chk.path("fake"); os.makedirs(fake)
    subprocess.run(["gcc", "-O1", "-o", os.path.join(fake, "rust-analyzer"), os.path.join(VERIF, "harness", "fake", "rust-analyzer.c")], check=True)
    model = "CONSTANTS Bodies = {0, 2} Count = 2 Chunk = %d Polite = %s\nSPECIFICATION MSpec\nINVARIANTS InOrder NothingHeld CleanEnd\nPROPERTIES Ends Arrives\n"
    for n, (c, p) in enumerate([(1, "TRUE"), (3, "TRUE"), (3, "FALSE"), (6, "TRUE")] if chk.thorough else [(2, "TRUE")]): chk.tlc("LspModel", model % (c, p), name="LspModel%d" % n)
    scens, _ = chk.tlc("LspGen", "CONSTANTS Seed = %d Sessions = %d Most = 14\nINIT Init\nNEXT Next\n" % (chk.seed, 4000 if chk.thorough else 400))
    scens.sort(key=lambda s: s["n"])
    base = tempfile.mkdtemp(prefix="lsp")
    try:
        with ProcessPoolExecutor(NCPU, initializer=common_counter, initargs=(multiprocessing.Value("i", 0),)) as ex: traces = list(ex.map(work, [(exe, fake, s, os.path.join(base, str(s["n"]))) for s in scens], chunksize=1))
    finally: shutil.rmtree(base, ignore_errors=True)
    traces = [t for t in traces if t is not None]
    chk.log("%d sessions%s" % (len(traces), "" if len(traces) == len(scens) else ", given up after many stuck ones"))
    chk.notes["messages"] = sum(1 for t in traces for e in t["ev"] if e["k"] == "send")
    for t in traces:
        for e in t["ev"]:
            if e["k"] in ("send", "recv"): e["m"]["leaves"] = e["m"]["leaves"] if e["m"].get("units") or e["k"] == "recv" and e["m"]["json"] else []
    chk.validate_traces("LspCheck", traces)
