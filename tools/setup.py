#!/usr/bin/env python3
"""Setup: everything is installed; make sure the tools the checks use answer."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
ok = True
for c in (["java", "-version"], ["g++", "--version"]):
    ok &= subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
ok &= os.path.exists("/opt/veriftools/tla/tla2tools.jar")
sys.exit(0 if ok else 2)
