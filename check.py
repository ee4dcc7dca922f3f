#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough]

1. compiles the translation units named by contracts/ID.py from /repo to LLVM IR and discharges every proof obligation of
   the contracts written there (gvc/): the deciding step;
2. builds harness/ID.cpp against the same sources (AddressSanitizer) and runs it: it replays the code on concrete inputs,
   turns failed obligations into failing inputs where it can, and is the bounded stand-in for what is not proved."""
import sys, os, time, json, importlib, subprocess, tempfile, shutil, multiprocessing as mp, re, traceback, signal
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/gvc"); sys.path.insert(0, VERIF + "/contracts")
sys.setrecursionlimit(20000)
REPO = os.environ.get("GVC_REPO", "/repo")
NCPU = max(2, min(8, os.cpu_count() or 2))

def log(*a): print(*a, flush=True)

# ------------------------------------------------------------------ proofs
def prove_worker(q, idx, modname, scale, tier):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    try:
        import spec
        C = sys.modules[modname]
        f = C.FUNCS[idx]
        import smt
        if scale > 1: smt.TSCALE = 3.0
        r = spec.verify(f, MODS, MODELS, budget=f.budget * scale * (3 if tier == "thorough" else 1))
        q.put((idx, r))
    except BaseException as e:
        q.put((idx, "worker: " + repr(e)[:300]))

def run_proofs(C, tier, tmp, only=None, scale=1):
    global MODS, MODELS
    from build import build, BuildError
    from ir import Module
    import models, stl, sets, spec
    MODELS = models.MODELS
    out = {}
    try:
        lls = build(C.TUS, tmp + "/ir"); MODS = [Module(lls[t]) for t in C.TUS]
    except BuildError as e:
        return {i: "IR build failed: " + str(e)[-400:] for i in range(len(C.FUNCS))}
    ctx = mp.get_context("fork"); q = ctx.Queue()
    todo = sorted(only if only is not None else range(len(C.FUNCS)), key=lambda i: -C.FUNCS[i].budget); run = {}
    while todo or run:
        while todo and len(run) < NCPU:
            i = todo.pop(0)
            p = ctx.Process(target=prove_worker, args=(q, i, C.__name__, scale, tier)); p.start()
            run[i] = (p, time.time() + C.FUNCS[i].budget * scale * (3 if tier == "thorough" else 1) + 45)
        try:
            while True:
                i, r = q.get(timeout=0.2); out[i] = r
                p = run.pop(i, None)
                if p: p[0].join(5); (p[0].kill() if p[0].is_alive() else None)
        except Exception: pass
        for i, (p, dl) in list(run.items()):
            if time.time() > dl: p.kill(); p.join(); out[i] = "time limit"; del run[i]
            elif not p.is_alive():
                try:
                    while True:
                        j, r = q.get(timeout=0.5); out[j] = r; run.pop(j, None)
                except Exception: pass
                if i not in out: out[i] = f"worker died ({p.exitcode})"
                run.pop(i, None)
    return out

def accepted(r): return not isinstance(r, str) and r.status == "proved"

def prove_all(C, tier, tmp, t0):
    """one run; what was not accepted is tried once more with more time before it is reported"""
    out = run_proofs(C, tier, tmp)
    bad = [i for i, r in out.items() if C.FUNCS[i].expect and not accepted(r) and not (isinstance(r, str) and r.startswith("IR build"))]
    if bad and time.time() - t0 < 400:
        again = run_proofs(C, tier, tmp, only=bad, scale=1.5)
        for i, r in again.items():
            if accepted(r) or isinstance(out[i], str): out[i] = r
    return out

# ------------------------------------------------------------------ harness
CXX = ["g++", "-std=c++11", "-O1", "-g1", "-w", "-pthread", "-fno-omit-frame-pointer", "-fno-access-control", "-fpermissive", "-ffunction-sections", "-fdata-sections"]
def incs():
    from build import INC
    return [x for x in INC if not x.endswith("/shim")] + ["-I" + REPO + "/Util", "-I" + REPO]
def compile_one(a):
    src, obj, flags, cwd = a
    r = subprocess.run(CXX + flags + incs() + ["-c", src, "-o", obj], capture_output=True, text=True, cwd=cwd)
    return (src, r.returncode, r.stderr[-3000:])
def build_harness(C, tmp):
    H = C.HARNESS
    d = tmp + "/h"; os.makedirs(d, exist_ok=True)
    san = H.get("san", ["-fsanitize=address"])
    jobs = [(VERIF + "/harness/" + H["src"], d + "/main.o", san + H.get("flags", []) + ["-DHREPO=\"" + REPO + "\""], VERIF + "/harness")]
    for t in H["tus"]:
        s = os.path.join(REPO, t)
        jobs.append((s, d + "/" + t.replace("/", "_") + ".o", (san if t not in H.get("nosan", ()) else []) + H.get("tuflags", {}).get(t, []), os.path.dirname(s)))
    # the harness first: it is usually the slowest
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(compile_one, jobs))
    bad = [r for r in rs if r[1]]
    if bad: return None, "; ".join(f"{b[0]}: {b[2][:1500]}" for b in bad)
    libs = [x for x in (REPO + "/lib/liblog4cplus.a", REPO + "/lib/libantlr4-runtime.a", REPO + "/lib/libminizip.a") if os.path.exists(x)]
    cmd = ["g++", "-pthread"] + san + ["-no-pie", "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-o", d + "/run"] + [j[1] for j in jobs] + ["-Wl,--start-group"] + libs + ["-Wl,--end-group", "-lz", "-lboost_thread", "-lboost_system", "-lboost_regex", "-lcurl", "-lreadline", "-lgomp", "-ldl", "-lpthread"] + H.get("libs", [])
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return None, "link: " + r.stderr[-1500:]
    return d + "/run", ""

def parse_out(txt):
    ev = []
    for m in re.finditer(r"HARNESS-(FAIL|CRASH|HANG|STATS) (.*?)\n(.*?)HARNESS-END", txt, re.S):
        kv = dict(x.split("=", 1) for x in m.group(2).split() if "=" in x)
        ev.append((m.group(1), kv, m.group(3)))
    return ev

def run_harness(C, exe, tier, seed, tmp):
    H = C.HARNESS
    env = dict(os.environ); env["ASAN_OPTIONS"] = "alloc_dealloc_mismatch=0:detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:detect_stack_use_after_return=0:allocator_may_return_null=1:detect_odr_violation=0"
    env["HARNESS_TMP"] = tmp + "/scratch"; os.makedirs(tmp + "/scratch", exist_ok=True)
    subs = subprocess.run([exe, "--list"], capture_output=True, text=True, env=env).stdout.split()
    secs = H.get("secs", 25) * (8 if tier == "thorough" else 1)
    res = {}
    def one(s):
        o = f"{tmp}/out.{s}"; w = f"{tmp}/w.{s}"; os.makedirs(w, exist_ok=True)
        cmd = [exe, "--sub", s, "--seed", str(seed), "--tier", tier, "--secs", str(secs), "--out", o]
        try:
            with open(f"{tmp}/log.{s}", "w") as lf: rc = subprocess.run(cmd, env=env, stdout=lf, stderr=lf, timeout=secs * 2 + 60, cwd=w).returncode
        except subprocess.TimeoutExpired: rc = "timeout"
        txt = open(o, errors="replace").read() if os.path.exists(o) else ""
        lg = open(f"{tmp}/log.{s}", errors="replace").read()
        asan = re.search(r"ERROR: AddressSanitizer.*?(?=\n\n)", lg, re.S)
        return s, rc, parse_out(txt), asan.group(0)[:1500] if asan else lg[-600:]
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for s, rc, ev, lg in ex.map(one, subs): res[s] = (rc, ev, lg)
    return subs, res, secs

def known_findings(pid):
    p = VERIF + "/known-findings.json"
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k["property"] == pid and k.get("status") == "open"]

def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    t0 = time.time()
    C = importlib.import_module(pid)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="gvc." + pid + ".")
    rc = 0
    try: rc = check(C, pid, tier, seed, t0, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def check(C, pid, tier, seed, t0, tmp):
    known = known_findings(pid)
    exe, herr = build_harness(C, tmp) if getattr(C, "HARNESS", None) else (None, "none")
    tb = time.time()
    subs, hres, hsecs = ([], {}, 0)
    if exe: subs, hres, hsecs = run_harness(C, exe, tier, seed, tmp)
    th = time.time()
    # with a failing input in hand the proofs only serve to name the broken obligations: less time, no second try
    found = any(e[0] != "STATS" and not any(re.search(k["match"], f"{s} {e[2]}", re.S) for k in known) for s in subs for e in hres[s][1])
    proofs = {}
    if getattr(C, "FUNCS", None): proofs = run_proofs(C, tier, tmp, scale=0.4) if found else prove_all(C, tier, tmp, t0)
    tp = time.time()
    # ---- proofs
    obls = disch = 0; und = []; refuted = []; funcs = []; by = {}; solver = 0.0; broken = []; boundedf = []; trusted = set(); inl = set(); vac = []; kinds = {}
    for i, f in enumerate(C.FUNCS):
        r = proofs.get(i, "not run")
        if isinstance(r, str):
            und.append((f.key(), r)); boundedf.append({"function": f.key(), "signature": f.name, "why": r[:500], "obligations": []}); funcs.append({"function": f.key(), "status": "undecided", "why": r[:300], "bounded_standin": True}); continue
        n = len(r.obls); d = sum(o["status"] == "proved" for o in r.obls)
        obls += n; disch += d
        for o in r.obls:
            if o["status"] == "proved": by[o["backend"]] = by.get(o["backend"], 0) + 1
            kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
        solver += r.stats["time"] + r.stats.get("cvc5_time", 0); trusted |= set(r.modelled); inl |= set(r.inlined); vac += [f"{f.key()}: {v}" for v in r.vac]
        funcs.append({"function": f.key(), "signature": f.name, "status": r.status, "obligations": n, "discharged": d, "loops": r.loops, "invariants": r.inv, "paths": r.paths, "seconds": round(r.time, 1), "contracts_used": r.contracts, "why": r.why[:300]})
        if r.status != "proved":
            # an obligation the solver does not accept is reported; what could not be turned into obligations at all is undecided
            (broken if f.expect and any(o["status"] != "proved" for o in r.obls) else boundedf).append({"function": f.key(), "signature": f.name, "why": r.why[:500], "obligations": [{"obligation": o["name"], "line": o["line"], "kind": o["kind"], "status": o["status"], "solver": o["backend"], "counterexample": o["model"]} for o in r.obls if o["status"] != "proved"][:12]})
        if r.status == "refuted": refuted.append((f, r))
        elif r.status != "proved": und.append((f.key(), r.why))
    # ---- harness
    viol = []; notes = []; cases = nontriv = distinct = 0; samples = []
    if exe:
        for s in subs:
            rc, ev, lg = hres[s]; st = [e for e in ev if e[0] == "STATS"]; fl = [e for e in ev if e[0] != "STATS"]
            for e in st:
                cases += int(e[1]["cases"]); nontriv += int(e[1]["nontrivial"]); distinct += int(e[1]["distinct"])
                m = re.search(r"sample: (.*)", e[2])
                if m and m.group(1).strip(): samples.append(f"{s}: {m.group(1)[:300]}")
            for kind, kv, body in fl:
                k = next((k for k in known if re.search(k["match"], f"{s} {body}", re.S)), None)
                if k: notes.append(k); continue
                viol.append((s, kind, kv, body, lg))
            if not st and not fl: notes.append(f"harness {s}: no result (exit {rc}) {lg[-200:]}")
    else: notes.append("harness not built: " + herr[:1500])
    status = 0; lines = []
    seenk = []
    for k in notes:
        if isinstance(k, dict) and k not in seenk: seenk.append(k)
    for k in known:
        if k in seenk or k.get("always"): lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    if viol:
        s, kind, kv, body, lg = viol[0]
        rp = f"{VERIF}/evidence/{pid}.replay.json"
        failed = broken[:10]
        json.dump({"property": pid, "kind": kind, "sub": s, "seed": int(kv.get("seed", seed)), "case": int(kv.get("case", 0)), "report": body, "log": lg, "failed_obligations": failed,
                   "undecided_obligations": und[:10], "all": [(v[0], v[1], v[3][:1000]) for v in viol[:8]], "rerun": f"python3-vt {VERIF}/check.py {pid} --replay {rp}"}, open(rp, "w"), indent=1)
        for v in viol[:3]: log(f"FAIL {v[0]} {v[1]} {v[3][:700]}")
        lines.append(f"VIOLATION property={pid} replay={rp}"); status = 1
    elif broken:
        rp = f"{VERIF}/evidence/{pid}.replay.json"
        json.dump({"property": pid, "failed_obligations": broken[:20], "harness": {"cases": cases, "subs": subs, "note": "the replay harness found no failing input"}}, open(rp, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found"); status = 1
    for x in broken:
        for o in x["obligations"][:4]: log(f"FAILED OBLIGATION {x['function']}: {o['obligation']} (line {o['line']}): {o['status']}")
        if not x["obligations"]: log(f"FAILED OBLIGATION {x['function']}: not discharged: {x['why'][:200]}")
    for k, w in und:
        if k in {x["function"] for x in boundedf}: log(f"UNDECIDED {k}: {w[:300]} (bounded stand-in: harness)")
    for n in notes:
        if isinstance(n, str): log("NOTE " + n)
    nproved = sum(1 for f in funcs if f["status"] == "proved")
    level = getattr(C, "LEVEL", "proof")
    cov = {"obligations": obls, "discharged": disch, "checker_cmd": f"python3-vt {VERIF}/check.py {pid} --tier {tier}",
           "trusted_base": ["clang 18 front end and opt (sroa, simplifycfg) preserve the C++ semantics", "gvc: LLVM IR reader, symbolic executor and loop rule in /verif/gvc", "z3 4.8/5.x python API and cvc5 1.1.2"] + ["library model: " + x for x in sorted(trusted)[:60]],
           "functions_under_contract": len(C.FUNCS), "functions_proved": nproved, "functions": funcs, "discharged_by": by, "obligation_kinds": kinds, "solver_seconds": round(solver, 1),
           "inlined_callees": sorted(inl)[:80], "vacuity_checks": vac[:80], "undecided": und[:20],
           "evaluations": cases, "distinct_nontrivial": distinct, "rule": getattr(C, "RULE", "seeded generator in harness/%s.cpp; distinct non-trivial inputs counted by hash" % pid), "samples": samples[:8] or ["none"],
           "harness_subs": subs, "harness_seconds_per_sub": hsecs, "bounded_part": getattr(C, "BOUNDED", [])}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": getattr(C, "ASSUMPTIONS", []) + COMMON, "wall_s": round(time.time() - t0, 1), "violations": len(viol) + (0 if viol else len(broken))}
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    log(f"{pid} {tier}: {nproved}/{len(C.FUNCS)} functions proved, {disch}/{obls} obligations, {len(und)} undecided, harness {cases} cases ({distinct} distinct non-trivial) in {len(subs)} groups; build {tb-t0:.0f}s harness {th-tb:.0f}s proofs {tp-th:.0f}s")
    for l in lines: log(l)
    return status

COMMON = ["C++ exceptions are not thrown (unwind edges are not followed)", "termination of loops is not proved (the harness has a time limit per case)",
          "std::vector element storage is treated as one region that does not move; the AddressSanitizer harness covers dangling iterators",
          "objects passed to a function do not overlap unless the contract says so", "single-threaded execution of each function under contract unless stated"]

def replay(pid, path):
    j = json.load(open(path)); C = importlib.import_module(pid); tmp = tempfile.mkdtemp(prefix="gvc.replay.")
    try:
        if "sub" not in j: print(json.dumps(j, indent=1)[:4000]); return 0
        exe, e = build_harness(C, tmp)
        if not exe: print(e); return 2
        os.environ["ASAN_OPTIONS"] = "alloc_dealloc_mismatch=0:detect_leaks=0:handle_segv=0:handle_abort=0"; os.environ["HARNESS_TMP"] = tmp
        return subprocess.run([exe, "--sub", j["sub"], "--seed", str(j["seed"]), "--case", str(j["case"])], cwd=tmp).returncode
    finally: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    if "--replay" in sys.argv: sys.exit(replay(sys.argv[1], sys.argv[sys.argv.index("--replay") + 1]))
    main()
