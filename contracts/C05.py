"""C05: latches.  Each GLatch operation is proved against its transition for every reader count and transaction identifier,
with other threads allowed to do anything to the latch whenever its spin lock is not held (thread-modular: the fields are
re-chosen under the invariant at every acquisition; they may not be read or written outside)."""
import re
from spec import *

ID = "C05"
import os
TUS = ["Util/GraphLock.cpp", "Util/Latch.cpp", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/inst/C05.cpp"]
INV = (1 << 64) - 1
TID, RC = 8, 16

def inv(sr, T, R):
    """what every holder protocol keeps: an exclusive holder excludes readers (serializable mode counts it as one reader; the other modes count none)"""
    return z3.If(sr, z3.Implies(T != INV, R == 1), R == 0)

def fields(ex, st, o): return tuple(ex.U(st, st.mem.get((o.id, k)) or o.init[k]) for k in (TID, RC))
def havoc(ex, st, o, sr):
    t, r = ex.fresh_int(64, "T", st=st), ex.fresh_int(64, "R", st=st)
    st.assume(inv(sr, t.e, r.e)); st.assume(r.e < INV)      # fewer than 2^64-1 readers
    st.mem[(o.id, TID)] = t; st.mem[(o.id, RC)] = r
    return (t.e, r.e)
def m_lock(ex, func, st, dn, av, rt):
    c = ex.case; o = c.o
    if av[0].r is not o or not av[0].off.isconst() or av[0].off.c != 0: raise Unsupported("lock of another object")
    now = tuple(fields(ex, st, o)); last = st.notes["out"]
    ex.oblige(st, z3.And(ze(now[0]) == last[0], ze(now[1]) == last[1]), "the latch state is written only while the spin lock is held", "pre")
    ex.oblige(st, st.notes["held"] is False, "the spin lock is not taken twice", "safety")
    st.notes["held"] = True; st.notes["in"] = havoc(ex, st, o, c.sr)
    if c.proto: st.assume(c.proto(c, *st.notes["in"]))
    return [(st, ex.const(32, 0))]
def m_unlock(ex, func, st, dn, av, rt):
    c = ex.case; o = c.o
    if av[0].r is not o: raise Unsupported("lock of another object")
    ex.oblige(st, st.notes["held"] is True, "the spin lock is held when it is released", "safety")
    st.notes["secs"] = st.notes["secs"] + (tuple(st.notes["in"]) + tuple(ze(x) for x in fields(ex, st, o)),)
    st.notes["held"] = False; st.notes["out"] = havoc(ex, st, o, c.sr)
    return [(st, ex.const(32, 0))]
LOCKS = [(re.compile(r"^pthread_spin_lock$"), m_lock), (re.compile(r"^pthread_spin_unlock$"), m_unlock)]

# the transitions: (before) -> [(guard, result, T', R')], first match
def step(op, sr, t, T, R):
    S = z3.If
    if op == "X":
        grant = S(sr, z3.And(T == INV, R == 0), T == INV); own = T == t
        return z3.Or(own, grant), S(z3.And(z3.Not(own), grant), t, T), S(z3.And(z3.Not(own), grant, sr), 1, R)
    if op == "S": own = T == t; grant = T == INV; return z3.Or(own, grant), T, S(z3.And(z3.Not(own), grant), R + 1, R)
    if op == "UX": ok = z3.And(T == t, z3.Implies(sr, R == 1)); return ok, S(ok, z3.IntVal(INV), T), S(z3.And(ok, sr), R - 1, R)
    if op == "US": ok = z3.And(sr, R > 0); return ok, T, S(ok, R - 1, R)
    if op == "UP": ok = z3.And(T == INV, R == 1); return ok, S(ok, t, T), R
    if op == "DN": ok = z3.And(T == t, R == 1); return ok, S(ok, z3.IntVal(INV), T), R
    if op == "own": return T == t, T, R
    if op == "xl": return T != INV, T, R
    if op == "sl": return R != 0, T, R
    if op == "l": return z3.Or(T != INV, R != 0), T, R
    if op == "rd": return R, T, R
    if op == "tid": return T, T, R

class Op(Contract):
    op = ""; srarg = False; tidarg = True; extra = (); mode = None; models = LOCKS; budget = 60; protocol = None
    def setup(self, ex):
        st = State(); o = Region("latch", "obj"); o.pre = True; o.slotw[0] = 4
        for k in (TID, RC): o.slotw[k] = 8
        sr = fresh("IS_SR", z3.BoolSort()) if self.mode is None else z3.BoolVal(self.mode)
        st.notes["held"] = False; st.notes["secs"] = (); st.notes["in"] = ()
        st.notes["out"] = havoc(ex, st, o, sr)
        for k in (TID, RC): o.init[k] = st.mem[(o.id, k)]
        args = [Ptr(o)]; t = None
        if self.tidarg: v = u64(ex, st, "tid"); st.assume(v.e != INV); args.append(v); t = v.e
        args += [x for x in self.extra]
        if self.srarg: args.append(sr)
        yield Case("", st, args, o=o, sr=sr, t=t, proto=self.protocol)
    def post(self, ex, c, st, ret):
        secs = st.notes["secs"]; o = c.o
        if not secs: return [("the operation takes the spin lock", z3.BoolVal(False))]
        T, R, T2, R2 = secs[-1]
        want, nT, nR = step(self.op, c.sr, c.t, T, R)
        r = ze(ret) if isinstance(want, z3.BoolRef) else ze(ex.U(st, ret))
        now = [ze(x) for x in fields(ex, st, o)]
        return [("the answer is the one the state at the decision requires", r == want),
                ("the exclusive holder afterwards", T2 == nT), ("the reader count afterwards", R2 == nR),
                ("the latch invariant is kept", inv(c.sr, T2, R2)),
                ("earlier critical sections change nothing", z3.And([z3.BoolVal(True)] + [z3.And(a[0] == a[2], a[1] == a[3]) for a in secs[:-1]])),
                ("the spin lock is released", z3.BoolVal(st.notes["held"] is False)),
                ("the latch state is not written after the release", z3.And(now[0] == st.notes["out"][0], now[1] == st.notes["out"][1]))] + lemmas()
_L = []
def lemmas():
    """the transitions keep mutual exclusion: x exclusive holders (0 or 1), n holders of a shared latch; R == n + x in serializable mode"""
    if _L: return []
    _L.append(1)
    sr = z3.BoolVal(True); T, R, n, x, t = z3.Ints("lT lR ln lx lt"); out = []
    rel = lambda T, R, n, x: z3.And(n >= 0, z3.Or(x == 0, x == 1), (T == INV) == (x == 0), R == n + x, z3.Implies(x == 1, n == 0))
    hyp = z3.And(rel(T, R, n, x), t != INV, t >= 0, t < INV)
    def after(op, dn, dx, need=True):
        ok, T2, R2 = step(op, sr, t, T, R)
        n2 = z3.If(ok, n + dn, n); x2 = z3.If(ok, x + dx, x)
        return z3.Implies(z3.And(hyp, need), rel(T2, R2, n2, x2))
    out.append(("lemma: acquiring the exclusive latch", after("X", 0, z3.If(T == t, 0, 1))))
    out.append(("lemma: acquiring a shared latch", after("S", z3.If(T == t, 0, 1), 0)))
    out.append(("lemma: releasing the exclusive latch", after("UX", 0, -1)))
    out.append(("lemma: releasing a shared latch", after("US", -1, 0, z3.And(n > 0))))
    out.append(("lemma: the only reader upgrades", after("UP", -1, 1, n > 0)))
    out.append(("lemma: the writer becomes the only reader", after("DN", 1, -1)))
    out.append(("lemma: an exclusive request is granted whenever nobody else holds anything", z3.Implies(z3.And(hyp, n == 0, z3.Or(x == 0, T == t)), step("X", sr, t, T, R)[0])))
    out.append(("lemma: a shared request is granted whenever nobody else holds it exclusively", z3.Implies(z3.And(hyp, z3.Or(x == 0, T == t)), step("S", sr, t, T, R)[0])))
    return out
def mk(nm, op_, title_=None, **kw):
    d = dict(name=nm, op=op_, title=title_ or nm.split("(")[0]); d.update(kw)
    return type("K", (Op,), d)()
U = "unsigned long long"
class UnX(Op):
    name = f"GLatch::unlatch({U}, bool, bool)"; title = "GLatch::unlatch (exclusive)"; op = "UX"; srarg = True; extra = (True,)
class UnS(Op):
    name = f"GLatch::unlatch({U}, bool, bool)"; title = "GLatch::unlatch (shared)"; op = "US"; srarg = True; extra = (False,)
    protocol = staticmethod(lambda c, T, R: z3.Implies(c.sr, T == INV))      # a shared latch is released by one of its holders: nobody holds it exclusively

# ---- the reader/writer latch and the spin lock around the pthread primitives: right primitive, right object, answer not inverted
def prim(kind, fails):
    def m(ex, func, st, dn, av, rt):
        c = ex.case
        ex.oblige(st, z3.BoolVal(av[0].r is c.o and av[0].off.isconst() and av[0].off.c == 0), "the primitive is called on the latch's own lock", "pre")
        r = ex.fresh_int(32, "rc", signed=True, st=st) if fails else ex.const(32, 0)
        st.notes["ev"] = st.notes["ev"] + ((kind, r.e),)
        return [(st, r)]
    return m
PRIMS = [(re.compile("^" + n + "$"), prim(k, f)) for n, k, f in (("pthread_rwlock_wrlock", "w", False), ("pthread_rwlock_rdlock", "r", False), ("pthread_rwlock_trywrlock", "w", True), ("pthread_rwlock_tryrdlock", "r", True),
         ("pthread_rwlock_unlock", "u", True), ("pthread_spin_lock", "w", False), ("pthread_spin_trylock", "w", True), ("pthread_spin_unlock", "u", False))]
class Wrap(Contract):
    models = PRIMS; kind = ""; answers = False
    def setup(self, ex):
        st = State(); o = Region("latch", "obj"); o.pre = True; st.notes["ev"] = ()
        yield Case("", st, [Ptr(o)], o=o)
    def post(self, ex, c, st, ret):
        ev = st.notes["ev"]
        ps = [("exactly one request, of the right kind", z3.BoolVal([e[0] for e in ev] == [self.kind]))]
        if self.answers: ps.append(("true exactly when the primitive succeeded", ze(ret) == (ze(ev[-1][1]) == 0) if ev else z3.BoolVal(False)))
        return ps
def wr(nm, k, a=False): return type("W", (Wrap,), dict(name=nm + "()", title=nm, kind=k, answers=a))()
WRAPS = [wr("Latch::lockExclusive", "w"), wr("Latch::tryLockExclusive", "w", True), wr("Latch::lockShared", "r"), wr("Latch::tryLockShared", "r", True), wr("Latch::unlock", "u", True),
         wr("spinlock::lock", "w"), wr("spinlock::try_lock", "w", True), wr("spinlock::unlock", "u")]

FUNCS = WRAPS + [mk(f"GLatch::tryexclusivelatch({U}, bool)", "X", srarg=True), mk(f"GLatch::trysharedlatch({U})", "S", mode=True), UnX(), UnS(),
         mk(f"GLatch::tryupgradelatch({U})", "UP", mode=True), mk(f"GLatch::trydowngradelatch({U})", "DN", mode=True), mk(f"GLatch::is_own_latch({U})", "own"),
         mk("GLatch::is_exclusive_latched(bool)", "xl", tidarg=False, srarg=True), mk("GLatch::is_shared_latched(bool)", "sl", tidarg=False, srarg=True),
         mk("GLatch::is_latched(bool)", "l", tidarg=False, srarg=True), mk("GLatch::get_readers()", "rd", tidarg=False), mk("GLatch::get_TID()", "tid", tidarg=False)]
HARNESS = {"src": "C05.cpp", "tus": ["Util/GraphLock.cpp", "Util/Latch.cpp"], "secs": 12}
ASSUMPTIONS = ["pthread_spin_lock/unlock give mutual exclusion and publish what was written under the lock", "fewer than 2^64-1 shared holders",
               "a shared latch is released, upgraded or downgraded only by one of its holders (callers' protocol)", "all transactions of a database run in one of the two modes (serializable, or not) at a time"]
BOUNDED = ["whole call sequences and two to four threads: harness only"]
