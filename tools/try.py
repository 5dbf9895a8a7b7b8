#!/usr/bin/env python3
"""try.py NAME comp,comp [args]: build a harness and run it"""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
comps = sys.argv[2].split(",")
try:
    b, n = vbuild.build_harness(sys.argv[1], comps)
except vbuild.BuildError as e:
    print(e); sys.exit(2)
args = sys.argv[3:]
show = "--show" in args
args = [a for a in args if a != "--show"]
r = subprocess.run([b, "--prop", sys.argv[1]] + args, stdout=subprocess.PIPE, text=True, errors="replace")
print("\n".join(l[:6000] for l in r.stdout.split("\n") if show or not l.startswith(' "samples"')))
sys.exit(r.returncode)
