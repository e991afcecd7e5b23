"""C04: integer rescaling is exact rational arithmetic or a visible failure."""
from rescale import *
from rescale_macro import run_macro

MODELS = [(-8, 7, -32, 31, 31), (0, 15, -32, 31, 31), (-16, 15, -16, 15, 15), (0, 31, -16, 15, 15)]

def check(chk):
    for n, (lo, hi, wlo, whi, mf) in enumerate(MODELS + ([(-32, 31, -64, 63, 63), (0, 63, -64, 63, 63)] if chk.thorough else [])):
        chk.tlc("IntRescale", "CONSTANTS NLo = %d Hi = %d NWLo = %d WHi = %d MaxF = %d\nINIT Init\nNEXT Next\nINVARIANTS Visible True1 Precise Small\n" % (-lo, hi, -wlo, whi, mf), "IntRescale%d" % n)
    jobs = gen(chk, 6000 if chk.thorough else 1200, "TRUE", "TRUE", 3, "RescaleGen")
    base = Base(chk)
    traces = run(chk, base, jobs, "rescale")
    traces += run_const(chk, base, jobs, traces, 1 if chk.thorough else 9)
    if traces: chk.validate_traces("RescaleCheck", traces)
    run_macro(chk, base, True)
