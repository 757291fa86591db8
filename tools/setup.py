#!/usr/bin/env python3
"""setup_cmd: verifies that the tools are there and parses every specification."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import vlib
os.makedirs(vlib.BUILD, exist_ok=True)
bad = 0
for f in sorted(glob.glob(os.path.join(V, "specs", "*.tla"))):
    r = subprocess.run(vlib.JAVA + ["-cp", vlib.TLACP, "tla2sany.SANY", f], cwd=os.path.join(V, "specs"), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    ok = r.returncode == 0 and "*** Errors" not in r.stdout and "Fatal" not in r.stdout
    print(("ok   " if ok else "FAIL ") + os.path.basename(f))
    if not ok:
        print(r.stdout)
    bad |= not ok
sys.exit(1 if bad else 0)
