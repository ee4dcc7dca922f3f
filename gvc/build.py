"""Compile translation units of /repo to LLVM IR (fresh on every run) and load them."""
import os, subprocess, hashlib, sys, concurrent.futures, tempfile
from ir import Module
REPO = os.environ.get("GVC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = ["-I" + REPO + "/_build/shim/inc", "-I" + VERIF + "/shim", "-I" + REPO + "/tools/log4cplus/include", "-I" + REPO + "/tools/zlib-1.3/include",
       "-I" + REPO + "/tools/antlr4-cpp-runtime-4/runtime/src"]
VI = ["-I" + REPO]
FLAGS = ["-std=c++11", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-g1", "-w", "-Wno-narrowing", "-pthread", "-fno-rtti-data"][:-1]
PASSES = "sroa<modify-cfg>,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts;no-speculate-blocks>"

class BuildError(Exception): pass

def compile_tu(tu, outdir):
    src = os.path.join(REPO, tu)
    base = os.path.join(outdir, tu.replace("/", "_"))
    cmd = lambda flags: ["clang++"] + flags + INC + (VI + ["-Xclang", "-fno-access-control"] if tu.startswith("/") else []) + ["-emit-llvm", "-c", "-o", base + ".bc", src]
    r = subprocess.run(cmd(FLAGS), capture_output=True, text=True, cwd=os.path.dirname(src))
    if r.returncode:      # g++ takes some C++14 (an atomic as an array size) under -std=c++11, clang does not
        r = subprocess.run(cmd(["-std=c++14" if f == "-std=c++11" else f for f in FLAGS]), capture_output=True, text=True, cwd=os.path.dirname(src))
    if r.returncode: raise BuildError(f"clang++ {tu}: {r.stderr[-2000:]}")
    r = subprocess.run(["opt", "-S", "-passes=" + PASSES, base + ".bc", "-o", base + ".ll"], capture_output=True, text=True)
    if r.returncode:
        r = subprocess.run(["/usr/lib/llvm-18/bin/opt", "-S", "-passes=" + PASSES, base + ".bc", "-o", base + ".ll"], capture_output=True, text=True)
        if r.returncode: raise BuildError(f"opt {tu}: {r.stderr[-2000:]}")
    os.unlink(base + ".bc")
    return base + ".ll"

def build(tus, outdir):
    os.makedirs(outdir, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return dict(zip(tus, ex.map(lambda t: compile_tu(t, outdir), tus)))
