#!/usr/bin/env python3
"""Development helper: records which library sources a harness needs (harness/<name>.deps)."""
import sys, os, glob
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
for n in sys.argv[1:]:
    for f in glob.glob(os.path.join(vlib.BUILD, "bin", n + "-*")): os.remove(f)
    print(vlib.build(n, probe=True)); print(open(os.path.join(vlib.V, "harness", n + ".deps")).read())
