#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]: decides one property on /repo's tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import glob, importlib
import vlib

CHECKS = {}
for path in sorted(glob.glob(os.path.join(vlib.VERIF, "lib", "p_*.py"))):
    mod = importlib.import_module(os.path.basename(path)[:-3])
    for n in dir(mod):
        if len(n) == 3 and n[0] == "p" and n[1:].isdigit():
            CHECKS[n.upper()] = getattr(mod, n)

if __name__ == "__main__":
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py {%s} [--tier quick|thorough] [--seed N]" % ",".join(sorted(CHECKS)))
        sys.exit(2)
    vlib.main(sys.argv[1], CHECKS[sys.argv[1]], "model_checking")
