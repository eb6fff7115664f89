#!/usr/bin/env python3
"""Builds the MIR exporter, the dumps and the witnesses the checks read (they rebuild them themselves when missing or stale)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.setrecursionlimit(20000)
import dump, fixtures, q_compile
P = dump.core_prog()
print("functions in the dump:", len(P.fns))
try:
    print("functions in the fixture dump:", len(fixtures.derive_prog().fns))
    a, r, res = q_compile.compile_all()
    print("witness programs:", len(res))
except dump.AnalysisError as e:
    print(e)
