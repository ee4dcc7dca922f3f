"""setup: the tools the checks use are there, and the prover tells a true statement from a false one"""
import sys, os, subprocess, shutil
D = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, D + "/gvc")
for t in ("clang++", "opt", "llvm-cxxfilt", "g++", "cvc5"):
    if not (shutil.which(t) or shutil.which(t + "-18") or os.path.exists("/usr/lib/llvm-18/bin/" + t)): print("missing tool", t); sys.exit(1)
import z3
s = z3.Solver(); x = z3.Int("x"); s.add(x > 1, x < 3, x != 2); assert s.check() == z3.unsat
s = z3.Solver(); s.add(x > 1, x < 3); assert s.check() == z3.sat
import ir, symex, loops, models, stl, spec, build
print("ok")
