#!/usr/bin/env python3
"""Nothing to build ahead: every check compiles its drivers from /repo. Verifies that the tools are there."""
import os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vc import build, llvm, engine, solve
import z3
for t in (build.CLANG, build.OPT, 'g++'):
    subprocess.run([t,'--version'], stdout=subprocess.DEVNULL, check=True)
for d in ('scratch','evidence','replays'): os.makedirs(os.path.join(V,d), exist_ok=True)
print('ok, z3', z3.get_version_string())
