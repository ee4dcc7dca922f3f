#!/usr/bin/env python3
"""development helper: mkseed.py ID PROPERTY FILE  (reads OLD/NEW hunks from stdin as python: edits=[(old,new),...], needs, breaks, demo) and writes seeded/ID"""
import sys, os, subprocess, json, tempfile
id, prop = sys.argv[1], sys.argv[2]
ns = {}; exec(sys.stdin.read(), ns)
d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(); subprocess.run(["git", "-C", "/repo", "worktree", "list"], capture_output=True)
subprocess.run(f"cd {w} && git init -q . && git -C {os.environ.get('GVC_REPO','/repo')} archive HEAD -- {' '.join(sorted(set(e[0] for e in ns['edits'])))} | tar x && git add -A && git -c user.email=a@b -c user.name=x commit -qm x", shell=True, check=True)
for f, o, n in ns["edits"]:
    p = os.path.join(w, f); s = open(p, newline="", errors="surrogateescape").read()
    if "\r\n" in s and "\r\n" not in o: o = o.replace("\n", "\r\n"); n = n.replace("\n", "\r\n")
    k = s.count(o); assert k == 1 or ns.get("nth"), (f, k)
    s = s.replace(o, n, 1) if k == 1 else (lambda parts, i: o.join(parts[:i]) + n + o.join(parts[i:]))(s.split(o), ns["nth"])
    open(p, "w", newline="", errors="surrogateescape").write(s)
out = subprocess.run(["git", "-C", w, "diff"], capture_output=True).stdout
open(d + "/patch.diff", "wb").write(out); subprocess.run(["rm", "-rf", w])
json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
if "demo" in ns: open(d + "/demo.cpp", "w").write(ns["demo"])
objs = ns.get("objs", "")
sh = ns.get("sh") or f'''#!/bin/bash
# run in /repo after the build: exit 0 when the code behaves, nonzero when it does not
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
I="-I_build/shim/inc -Itools/antlr4-cpp-runtime-4/runtime/src -Itools/log4cplus/include -I. -fno-access-control -fpermissive -w -fopenmp -pthread"
g++ -std=c++11 -O1 -g {ns.get('flags','')} $I -o "$w/demo" "$here/demo.cpp" {ns.get('srcs','')} {objs} -no-pie -Wl,--unresolved-symbols=ignore-all -L./lib -llog4cplus -lz -ldl -lpthread || exit 99
cd "$w" && timeout 120 ./demo
'''
open(d + "/demo.sh", "w").write(sh); os.chmod(d + "/demo.sh", 0o755)
print(out.decode(errors="replace"))
