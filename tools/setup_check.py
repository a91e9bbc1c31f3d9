#!/usr/bin/env python3
"""Nothing is compiled ahead: checks that the tools are there and every module parses."""
import os
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import tlc

mods = sorted(f for f in os.listdir(tlc.SPEC) if f.endswith(".tla"))
p = subprocess.run(["java", "-cp", tlc.CP, "tla2sany.SANY"] + mods, cwd=tlc.SPEC,
                   capture_output=True, text=True)
bad = p.returncode != 0 or "*** Errors" in p.stdout or "Parse Error" in p.stdout
print("parsed %d modules" % len(mods))
if bad:
    print(p.stdout[-3000:])
sys.exit(1 if bad else 0)
