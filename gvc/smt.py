"""Thin layer over z3: constant folding helpers and the proving entry point (z3, then cvc5)."""
import z3, time, os, subprocess, tempfile

STATS = {"queries": 0, "time": 0.0, "cvc5": 0, "cvc5_time": 0.0, "z3_proved": 0, "cvc5_proved": 0}
MAXQ = float(os.environ.get("GVC_TIMEOUT_MS", "8000"))

def isc(x): return isinstance(x, int) and not isinstance(x, bool)
def ze(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    return x
def zb(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    return x
def fold(e):
    if isinstance(e, (int, bool)): return e
    if z3.is_int_value(e): return e.as_long()
    return e
def add(a, b):
    if isc(a) and isc(b): return a + b
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return ze(a) + ze(b)
def sub(a, b):
    if isc(a) and isc(b): return a - b
    if isc(b) and b == 0: return a
    if not isc(a) and not isc(b) and a.eq(b): return 0
    return ze(a) - ze(b)
def mul(a, b):
    if isc(a) and isc(b): return a * b
    if isc(a): a, b = b, a
    if isc(b):
        if b == 0: return 0
        if b == 1: return a
    return ze(a) * ze(b)
def And(*xs):
    l = []
    for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs):
        if isinstance(x, bool):
            if not x: return False
            continue
        l.append(x)
    if not l: return True
    return l[0] if len(l) == 1 else z3.And(*l)
def Or(*xs):
    l = []
    for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs):
        if isinstance(x, bool):
            if x: return True
            continue
        l.append(x)
    if not l: return False
    return l[0] if len(l) == 1 else z3.Or(*l)
def Not(x):
    if isinstance(x, bool): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Implies(a, b):
    if isinstance(a, bool): return b if a else True
    if isinstance(b, bool): return True if b else Not(a)
    return z3.Implies(a, b)
def Iff(a, b):
    return ze(a) == ze(b) if not (isinstance(a, bool) and isinstance(b, bool)) else a == b
def If(c, a, b):
    if isinstance(c, bool): return a if c else b
    return z3.If(c, ze(a), ze(b))
def eq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return ze(a) == ze(b)
def le(a, b):
    if isc(a) and isc(b): return a <= b
    return ze(a) <= ze(b)
def lt(a, b):
    if isc(a) and isc(b): return a < b
    return ze(a) < ze(b)
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)

_fresh = [0]
def fresh(nm, sort=None):
    _fresh[0] += 1
    return z3.Const(f"{nm}!{_fresh[0]}", sort if sort is not None else z3.IntSort())

IntArr = None
def int_arr(): return z3.ArraySort(z3.IntSort(), z3.IntSort())

_qf = {}
def has_quant(e):
    if isinstance(e, bool): return False
    k = e.get_id()
    if k in _qf and _qf[k][0].eq(e): return _qf[k][1]
    r = False
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): r = True; break
        st.extend(x.children())
    _qf[k] = (e, r)
    return r

TSCALE = 1.0         # second tries get more solver time
def _run(asserts, timeout, mbqi=True):
    timeout *= TSCALE
    s = z3.Solver()
    if not mbqi: s.set("smt.mbqi", False)
    s.set("timeout", int(timeout))
    for a in asserts: s.add(a)
    t = time.time(); r = s.check(); STATS["queries"] += 1; STATS["time"] += time.time() - t
    return r, s

def feasible(pc, timeout=300):
    """False only if the quantifier-free part of pc is unsatisfiable."""
    for c in pc:
        if isinstance(c, bool) and not c: return False
    r, _ = _run([zb(c) for c in pc if not isinstance(c, bool) and not has_quant(c)], timeout)
    return r != z3.unsat

def cvc5_check(asserts, timeout):
    s = z3.Solver()
    for a in asserts: s.add(a)
    txt = s.to_smt2()
    import re as _re
    txt = "(set-logic ALL)\n" + "\n".join(l for l in txt.split("\n") if not l.startswith("(set-info"))
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt); nm = f.name
    t = time.time()
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout), "--full-saturate-quant", nm], capture_output=True, text=True, timeout=timeout / 1000 + 5).stdout
    except Exception:
        r = "unknown"
    finally:
        os.unlink(nm)
        STATS["cvc5"] += 1; STATS["cvc5_time"] += time.time() - t
    if r.startswith("unsat"): return "unsat"
    if r.startswith("sat"): return "sat"
    return "unknown"

class Res:
    __slots__ = ("ok", "status", "model", "backend", "reason")
    def __init__(s, ok, status, model=None, backend="z3", reason=""):
        s.ok, s.status, s.model, s.backend, s.reason = ok, status, model, backend, reason

DUMP = None
INFER_Z3, INFER_CVC5 = 500, 0
USE_INST = False     # contract option 'inst'
def prove(pc, goal, timeout=None, use_cvc5=True, infer=False, itmo=None):
    """Is goal a consequence of pc?  status: proved / refuted (model) / unknown."""
    timeout = timeout or MAXQ
    if isinstance(goal, bool) and goal: return Res(True, "proved", backend="trivial")
    asserts = [zb(c) for c in pc if not (isinstance(c, bool) and c)] + [zb(Not(goal))]
    if infer:
        t0 = time.time(); r, s = _run(asserts, itmo or INFER_Z3, mbqi=False)
        if r == z3.unknown and not USE_INST and time.time() - t0 < INFER_Z3 / 2000: return Res(False, "unknown")
    else: r, s = _run(asserts, min(timeout, 2500))
    if r == z3.unsat: STATS["z3_proved"] += 1; return Res(True, "proved")
    if r == z3.sat: return Res(False, "refuted", s.model())
    if infer:
        if USE_INST and any(has_quant(c) for c in asserts):
            import inst
            if inst.prove_inst(asserts, 2000): return Res(True, "proved", backend="z3+instances")
        if INFER_CVC5 and cvc5_check(asserts, INFER_CVC5) == "unsat": return Res(True, "proved", backend="cvc5")
        return Res(False, "unknown")
    if timeout > 2500:
        if USE_INST and any(has_quant(c) for c in asserts):
            import inst
            if inst.prove_inst(asserts): STATS["z3_proved"] += 1; return Res(True, "proved", backend="z3+instances")
        if use_cvc5:
            c = cvc5_check(asserts, timeout)
            if c == "unsat": STATS["cvc5_proved"] += 1; return Res(True, "proved", backend="cvc5")
        r, s = _run(asserts, timeout)
        if r == z3.unsat: STATS["z3_proved"] += 1; return Res(True, "proved")
        if r == z3.sat: return Res(False, "refuted", s.model())
    if DUMP:
        s2 = z3.Solver(); [s2.add(a) for a in asserts]; DUMP.write(s2.to_smt2()); DUMP.flush()
    return Res(False, "unknown", reason=str(s.reason_unknown()))

def tdiv(a, b):
    """quotient rounded towards zero (b is not 0)"""
    a, b = ze(a), ze(b); absz = lambda x: z3.If(x >= 0, x, -x); q = absz(a) / absz(b)
    return z3.If((a >= 0) == (b > 0), q, -q)
