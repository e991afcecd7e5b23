#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decides one property on /repo's working tree."""
import sys, os, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import common
def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    mod = importlib.import_module(pid.lower())
    common.main(pid, tier, mod.check)
main()
