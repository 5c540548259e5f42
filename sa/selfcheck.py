#!/usr/bin/env python3
"""setup: verify that the compiler tools are there and that the sources lower to analysable IR."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import prog
P = prog.Program(ruby=True)
print("ok: %d translation units, %d functions" % (len(P.mods), len(P.funcs)))
