"""C04: versions of a value list.  Two layers: one version is a set of added and a set of removed pairs (Util/Version.cpp); a key's
chain of versions is merged up to the reader's point in time, extended, committed and rolled back (KVstore/IVArray/IVEntry.cpp)."""
import re, os
from spec import *
import sets
from sets import W, new_set, get as set_of

ID = "C04"
INST = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/inst/C04.cpp"
TUS = ["Util/Version.cpp", "KVstore/IVArray/IVEntry.cpp", INST]
MAXN = 1 << 28
UP = "std::pair<unsigned int, unsigned int>"
VS = f"std::set<{UP}, std::less<{UP} >, std::allocator<{UP} > >&"
_off = {}
def off(ex, nm):
    if nm not in _off:
        g = next(m.globals[x] for m in ex.mods for x in m.globals if x.lstrip("@").strip('"') == "gvc_" + nm)
        _off[nm] = const_of(g)
    return _off[nm]
def const_of(g):
    for v in (g if isinstance(g, (list, tuple)) else [g]):
        m = re.search(r"constant i64 (\d+)", str(v))
        if m: return int(m.group(1))
    raise Unsupported("layout constant")

# ---------------------------------------------------------------- one version
class V:
    """the two regions of a version at state st: added pairs grow up from word 4, removed pairs grow down from the end"""
    def __init__(self, ex, st, o, size=None):
        p = st.mem.get((o.id, 0)) or o.init[0]
        self.ok = isinstance(p, Ptr) and p.r is not None and p.r.kind == "arr" and p.off.isconst() and p.off.c == 0
        a = ex.arr_of(st, p.r, 0); self.a = a; self.r = p.r
        self.size, self.na, self.nd = z3.Select(a, 0), z3.Select(a, 1), z3.Select(a, 2)
        if size is not None: self.size = size
    def A(self, j): return z3.Select(self.a, 4 + 2 * j) * W + z3.Select(self.a, 5 + 2 * j)
    def D(self, j): return z3.Select(self.a, self.size - 1 - 2 * j) * W + z3.Select(self.a, self.size - 2 - 2 * j)
    def AA(self, j): return z3.Select(self.a, 4 + 2 * j), z3.Select(self.a, 5 + 2 * j)
    def DD(self, j): return z3.Select(self.a, self.size - 1 - 2 * j), z3.Select(self.a, self.size - 2 - 2 * j)
    def inA(self, q, n=None, lo=0): n = self.na if n is None else n; return z3.Exists([q2], z3.And(q2 >= lo, q2 < n, self.A(q2) == q))
    def inD(self, q, n=None, lo=0): n = self.nd if n is None else n; return z3.Exists([q2], z3.And(q2 >= lo, q2 < n, self.D(q2) == q))
    def shape(self): return z3.And(self.na >= 0, self.nd >= 0, self.size >= 16, self.size <= MAXN, 4 + 2 * self.na + 2 * self.nd <= self.size)

def version(ex, st, nm="v"):
    o = Region(nm, "obj"); o.pre = True; n = fresh(nm + ".words"); st.assume(n >= 16)
    p = array(ex, st, nm + ".data", n); o.init[0] = p; o.slotw[0] = 8
    v = V(ex, st, o); st.assume(v.shape()); st.assume(n == v.size); st.assume(ranged(v.a, n))
    p.r.nbytes = Lin.of(v.size).scale(4)
    return o, v
def pairarg(ex, st):
    """std::pair<unsigned, unsigned> by value: one 64-bit word, the first component in the low half"""
    x, y = u32(ex, st, "first"), u32(ex, st, "second")
    return IV(64, y.e * W + x.e, 0, (1 << 64) - 1, parts=(x, y)), x.e * W + y.e, x.e, y.e
def peq(a, b): return z3.And(a[0] == b[0], a[1] == b[1])
def same_pairs(f, g, n): return forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < n), f(q1) == g(q1)))

def same2(f, g, n): return forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < n), peq(f(q1), g(q1))))

class Expand(Contract):
    opt = {"inst": True}
    name = "Version::expand(int)"; title = "Version::expand"; budget = 90
    def setup(self, ex):
        st = State(); o, v = version(ex, st); n = i32(ex, st, "num"); st.assume(z3.And(n.e >= 0, v.na + v.nd + n.e <= MAXN >> 2)); st.assume(v.size <= MAXN >> 1)
        yield Case("", st, [Ptr(o), n], o=o, v=v, n=n.e)
    def gen(self, ex, c, L):
        out = []
        need = 4 + 2 * (c.v.na + c.v.nd + c.n)
        for x in L.vars:
            if x.kind == "int": out.append(("doubling stays below twice the need", lambda w, x=x: z3.Or(w[x] <= MAXN, w[x] < 2 * need)))
        ints = [x for x in L.vars if x.kind == "int"]
        for x in ints:
            for y in ints:
                if x is y or x.name < y.name: continue
                for k, r, a0, a in L.arrs:
                    if r is None or r is c.v.r or k[1] != 0: continue
                    d = ze(sub(y.init, x.init))
                    out.append((f"moved {x.name} {y.name}", lambda w, x=x, r=r, k=k, d=d: forall([q1], z3.Implies(z3.And(q1 > w[x], q1 <= ze(x.init)), z3.Select(w.arr(r, k[1]), q1) == z3.Select(c.v.a, q1 + d)))))
                    out.append((f"moved {y.name} {x.name}", lambda w, x=y, r=r, k=k, d=d: forall([q1], z3.Implies(z3.And(q1 > w[x], q1 <= ze(x.init)), z3.Select(w.arr(r, k[1]), q1) == z3.Select(c.v.a, q1 - d)))))
        return out
    def post(self, ex, c, st, ret):
        w = V(ex, st, c.o); v = c.v
        return [("room for the new pairs", 4 + 2 * (w.na + w.nd + c.n) <= w.size), ("the counts are kept", z3.And(w.na == v.na, w.nd == v.nd)), ("never shrinks", w.size >= v.size),
                ("the added pairs are kept", same2(w.AA, v.AA, v.na)), ("the removed pairs are kept", same2(w.DD, v.DD, v.nd)), ("the buffer is as long as it says", w.r.nbytes.expr() == 4 * w.size)]
    def apply(self, ex, func, st, av, rt):
        o = av[0].r; v = V(ex, st, o); n = ze(ex.S(st, av[1]))
        ex.oblige(st, z3.And(n >= 0, v.shape()), "expand is called on a well-formed version", "pre")
        r = Region("grown", "arr", stride=4); r.slotw[0] = 4; ex.arr_of(st, r, 0); r.pre = True
        st.mem[(o.id, 0)] = Ptr(r); st.writes.append((o, 0, None, Ptr(r)))
        w = V(ex, st, o); r.nbytes = Lin.of(w.size).scale(4)
        st.assume(z3.And(w.na == v.na, w.nd == v.nd, w.size >= v.size, 4 + 2 * (w.na + w.nd + n) <= w.size)); st.assume(ranged(w.a, w.size)); st.assume(w.size < 1 << 30)
        st.assume(same2(w.AA, v.AA, v.na)); st.assume(same2(w.DD, v.DD, v.nd))
        return [(st, None)]
class Drop(Contract):
    side = "A"; budget = 120; opt = {"inst": True}
    def setup(self, ex):
        st = State(); o, v = version(ex, st); x, y = u32(ex, st, "first"), u32(ex, st, "second")
        pr = Region("value", "obj"); pr.pre = True; pr.init[0] = x; pr.init[4] = y; pr.slotw[0] = pr.slotw[4] = 4
        yield Case("", st, [Ptr(o), Ptr(pr)], o=o, v=v, q=(x.e, y.e))
    def spec(self, v, w, q, n0, n1):
        f, g = (v.AA, w.AA) if self.side == "A" else (v.DD, w.DD)
        return [("nothing is invented", forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < n1), z3.Exists([q2], z3.And(q2 >= 0, q2 < n0, peq(f(q2), g(q1))))))),
                ("nothing else is lost", forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < n0, z3.Not(peq(f(q1), q))), z3.Exists([q2], z3.And(q2 >= 0, q2 < n1, peq(g(q2), f(q1)))))))]
    def frame(self, v, w):
        g, f, n = (w.DD, v.DD, v.nd) if self.side == "A" else (w.AA, v.AA, v.na)
        return z3.And(forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < n), peq(f(q1), g(q1)))), w.size == v.size, (w.nd == v.nd) if self.side == "A" else (w.na == v.na))
    def gen(self, ex, c, L):
        i = [x for x in L.vars if x.kind == "int"]; out = []
        if not i: return out
        i = i[0]; cnt = lambda w: w.na if self.side == "A" else w.nd
        n0 = c.v.na if self.side == "A" else c.v.nd
        def at(view): return V(ex, view.st, c.o, c.v.size)
        out.append(("size", lambda s: V(ex, s.st, c.o).size == c.v.size))
        out.append(("counts", lambda s: z3.And( cnt(at(s)) <= n0, cnt(at(s)) >= 0, s[i] <= cnt(at(s)))))
        out.append(("words", lambda s: ranged(at(s).a, c.v.size)))
        out.append(("frame", lambda s: self.frame(c.v, at(s))))
        out.append(("not before i", lambda s: forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < s[i]), z3.Not(peq((at(s).AA if self.side == "A" else at(s).DD)(q1), c.q))))))
        out.append(("nothing is invented", lambda s: self.spec(c.v, at(s), c.q, n0, cnt(at(s)))[0][1]))
        out.append(("nothing else is lost", lambda s: self.spec(c.v, at(s), c.q, n0, cnt(at(s)))[1][1]))
        return out
    def post(self, ex, c, st, ret):
        w = V(ex, st, c.o); v = c.v; n0, n1 = (v.na, w.na) if self.side == "A" else (v.nd, w.nd)
        return [("the pair is gone", forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < n1), z3.Not(peq((w.AA if self.side == "A" else w.DD)(q1), c.q))))),
                ("the other side and the size are kept", self.frame(v, w)), ("never grows", z3.And(n1 <= n0, n1 >= 0))] + self.spec(v, w, c.q, n0, n1)
    def apply(self, ex, func, st, av, rt):
        o = av[0].r; v = V(ex, st, o); q = (ze(ex.U(st, ex.load(st, func, Ty("i", 32), av[1]))), ze(ex.U(st, ex.load(st, func, Ty("i", 32), Ptr(av[1].r, av[1].off.add(Lin(4)), av[1].key)))))
        ex.oblige(st, v.shape(), "called on a well-formed version", "pre")
        r = v.r; a = fresh("dropped", int_arr()); st.mem[(r.id, 0)] = a; st.writes.append((r, 0, None, a))
        w = V(ex, st, o); n0, n1 = (v.na, w.na) if self.side == "A" else (v.nd, w.nd)
        st.assume(ranged(a, w.size)); st.assume(z3.And(n1 >= 0, n1 <= n0)); st.assume(self.frame(v, w))
        st.assume(forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < n1), z3.Not(peq((w.AA if self.side == "A" else w.DD)(q1), q)))))
        for nm, f in self.spec(v, w, q, n0, n1): st.assume(f)
        return [(st, None)]
class DropAdded(Drop): name = f"Version::drop_added({UP} const&)"; title = "Version::drop_added"; side = "A"
class DropRemoved(Drop): name = f"Version::drop_removed({UP} const&)"; title = "Version::drop_removed"; side = "D"
EXP, DA, DR = Expand(), DropAdded(), DropRemoved()

class Add(Contract):
    opt = {"inst": True}
    name = f"Version::add({UP})"; title = "Version::add"; uses = (EXP, DA, DR); side = "A"; budget = 100
    def setup(self, ex):
        st = State(); o, v = version(ex, st); arg, _, qx, qy = pairarg(ex, st); st.assume(v.size <= MAXN >> 2)
        yield Case("", st, [Ptr(o), arg], o=o, v=v, q=(qx, qy))
    def post(self, ex, c, st, ret):
        v, w = V(ex, c.st0, c.o), V(ex, st, c.o)
        mine, other = ("A", "D") if self.side == "A" else ("D", "A")
        n = lambda x, s: x.na if s == "A" else x.nd
        F = lambda x, s: x.AA if s == "A" else x.DD
        return [("well formed", z3.And(w.na >= 0, w.nd >= 0, 4 + 2 * w.na + 2 * w.nd <= w.size)),
                ("the pair is recorded", z3.Exists([q2], z3.And(q2 >= 0, q2 < n(w, mine), peq(F(w, mine)(q2), c.q)))),
                ("an opposite record of the pair is forgotten", forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < n(w, other)), z3.Not(peq(F(w, other)(q1), c.q))))),
                ("what was recorded stays", forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < n(v, mine)), peq(F(w, mine)(q1), F(v, mine)(q1))))),
                ("only the pair is new", n(w, mine) == n(v, mine) + 1),
                ("no opposite record is invented", forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < n(w, other)), z3.Exists([q2], z3.And(q2 >= 0, q2 < n(v, other), peq(F(v, other)(q2), F(w, other)(q1))))))),
                ("no other opposite record is lost", forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < n(v, other), z3.Not(peq(F(v, other)(q1), c.q))), z3.Exists([q2], z3.And(q2 >= 0, q2 < n(w, other), peq(F(w, other)(q2), F(v, other)(q1)))))))]
class Remove(Add): name = f"Version::remove({UP})"; title = "Version::remove"; side = "D"

class GetSet(Contract):
    side = "A"; budget = 90
    def setup(self, ex):
        st = State(); o, v = version(ex, st); p, s0 = new_set(st, "set")
        yield Case("", st, [Ptr(o), p], o=o, v=v, p=p, s0=s0)
    def f(self, c, q, n): return z3.Or(c.s0[q], c.v.inA(q, n) if self.side == "A" else c.v.inD(q, n))
    def gen(self, ex, c, L):
        P = c.v.A if self.side == "A" else c.v.D
        S = lambda s: set_of(s.st, c.p)
        return [("covers", lambda s: forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < s["it"]), S(s)[P(q1)]))), ("keeps", lambda s: forall([q1], z3.Implies(c.s0[q1], S(s)[q1]))),
                ("only", lambda s: forall([q1], z3.Implies(S(s)[q1], self.f(c, q1, s["it"]))))]
    def post(self, ex, c, st, ret):
        s = set_of(st, c.p); P, n = (c.v.A, c.v.na) if self.side == "A" else (c.v.D, c.v.nd)
        return [("every recorded pair is delivered", forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < n), s[P(q1)]))), ("what was there stays", forall([q1], z3.Implies(c.s0[q1], s[q1]))), ("nothing else is delivered", forall([q1], z3.Implies(s[q1], self.f(c, q1, n))))]
class GetAdd(GetSet): name = f"Version::get_add_set({VS}) const"; title = "Version::get_add_set"
class GetDel(GetSet): name = f"Version::get_del_set({VS}) const"; title = "Version::get_del_set"; side = "D"

class GetVersion(Contract):
    name = f"Version::get_version({VS}, {VS}) const"; title = "Version::get_version"; budget = 120
    def setup(self, ex):
        st = State(); o, v = version(ex, st); pa, a0 = new_set(st, "add_set"); pd, d0 = new_set(st, "del_set")
        st.assume(forall([q1], z3.Not(z3.And(a0[q1], d0[q1]))))
        yield Case("", st, [Ptr(o), pa, pd], o=o, v=v, pa=pa, pd=pd, a0=a0, d0=d0)
    def gen(self, ex, c, L):
        A = lambda s: set_of(s.st, c.pa); D = lambda s: set_of(s.st, c.pd); it = lambda s: s["it"]; v = c.v
        rng = lambda n, f: forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < n), f(q1)))
        a1, d1 = set_of(L.st0, c.pa), set_of(L.st0, c.pd)
        return [("added: in", lambda s: rng(it(s), lambda j: z3.And(A(s)[v.A(j)], z3.Not(D(s)[v.A(j)])))),
                ("added: keep", lambda s: forall([q1], z3.And(z3.Implies(a1[q1], A(s)[q1]), z3.Implies(D(s)[q1], d1[q1])))),
                ("added: only", lambda s: forall([q1], z3.And(z3.Implies(A(s)[q1], z3.Or(a1[q1], v.inA(q1, it(s)))), z3.Implies(d1[q1], z3.Or(D(s)[q1], v.inA(q1, it(s))))))),
                ("removed: in", lambda s: rng(it(s), lambda j: z3.And(D(s)[v.D(j)], z3.Not(A(s)[v.D(j)])))),
                ("removed: keep", lambda s: forall([q1], z3.And(z3.Implies(d1[q1], D(s)[q1]), z3.Implies(A(s)[q1], a1[q1])))),
                ("removed: only", lambda s: forall([q1], z3.And(z3.Implies(D(s)[q1], z3.Or(d1[q1], v.inD(q1, it(s)))), z3.Implies(a1[q1], z3.Or(A(s)[q1], v.inD(q1, it(s)))))))]
    def post(self, ex, c, st, ret):
        A, D, v = set_of(st, c.pa), set_of(st, c.pd), c.v; q = q1
        return [("a removed pair is removed", forall(q, z3.Implies(v.inD(q), z3.And(D[q], z3.Not(A[q]))))),
                ("an added pair is added, whatever earlier versions did to it", forall(q, z3.Implies(z3.And(v.inA(q), z3.Not(v.inD(q))), z3.And(A[q], z3.Not(D[q]))))),
                ("other pairs keep the state earlier versions gave them", forall(q, z3.Implies(z3.And(z3.Not(v.inA(q)), z3.Not(v.inD(q))), z3.And(A[q] == c.a0[q], D[q] == c.d0[q])))),
                ("the version itself is not changed", z3.And(V(ex, st, c.o).a == V(ex, c.st0, c.o).a))]

# ---------------------------------------------------------------- a key's chain of versions (KVstore/IVArray/IVEntry.cpp)
INV = (1 << 64) - 1
U64 = "unsigned long long"
SPV = "std::shared_ptr<Version>"; SPT = "std::shared_ptr<Transaction>"
FAM = {}
def sp_copy(ex, func, st, dn, av, rt):
    """copying a shared_ptr copies the pointer (the count keeps the object alive: no object is freed while a copy exists)"""
    p = ex.load(st, func, Ty("ptr"), av[1]); ex.store(st, func, Ty("ptr"), p, av[0]); return [(st, None)]
def sp_nop(ex, func, st, dn, av, rt): return [(st, None)]
def mk_version(ex, func, st, dn, av, rt):
    c = ex.case; out, b, e = av
    k = fresh("made"); st.assume(k > 0); st.assume(forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < c.n), c.L[q1] != k)))
    def rd(p, i):
        w = 32 if re.search(r"make_shared<Version, int,", dn) and i == 0 else 64
        v = ex.load(st, func, Ty("i", w), p); return IV(64, ex.U(st, v), 0, INV)
    for o, p, i in ((off(ex, "off_begin"), b, 0), (off(ex, "off_end"), e, 1)): ex.store(st, func, Ty("i", 64), rd(p, i), Ptr(c.fam, Lin(o), k))
    ex.store(st, func, Ty("ptr"), Ptr(c.fam, Lin(0), k), out)
    st.notes["made"] = k
    return [(st, None)]
def latch_event(kind):
    def m(ex, func, st, dn, av, rt):
        c = ex.case; h = st.notes.get("held")
        ex.oblige(st, z3.BoolVal(av[0].r is c.o and av[0].off.isconst() and av[0].off.c == off(ex, "off_rw")), "the latch is the entry's own", "pre")
        if kind == "unlock":
            ex.oblige(st, z3.BoolVal(h is not None), "the entry's latch is held when it is released", "safety"); st.notes["held"] = None
        else:
            ex.oblige(st, z3.BoolVal(h is None), "the entry's latch is not taken twice", "safety"); st.notes["held"] = kind
        st.notes["took"] = st.notes.get("took", ()) + (kind,)
        return [(st, None)]
    return m
def delivered(ex, func, st, dn, av, rt):
    """Version::get_version at a call site: its contract merges exactly this version; the order of the calls is recorded"""
    c = ex.case; v = av[0]
    if v.r is not c.fam: raise Unsupported("version reached through another object")
    ex.oblige(st, z3.Not(eq(v.key, 0)) if not isinstance(eq(v.key, 0), bool) else True, "version pointer is not null", "safety")
    ex.oblige(st, z3.BoolVal(av[1].r is c.pa.r and av[2].r is c.pd.r), "delivered into the caller's sets, added into added and removed into removed", "pre")
    ex.oblige(st, z3.BoolVal(st.notes.get("held") is not None or c.latched_by_caller), "versions are read under the entry's latch", "pre")
    n = ex.load(st, func, Ty("i", 64), Ptr(c.cnt)); ne = ex.U(st, n)
    a = ex.arr_of(st, c.log, 0); na = z3.Store(a, ze(ne), ze(v.key)); st.mem[(c.log.id, 0)] = na; st.writes.append((c.log, 0, ze(ne), ze(v.key)))
    ex.store(st, func, Ty("i", 64), IV(64, add(ne, 1), 0, INV), Ptr(c.cnt))
    return [(st, None)]
def glatch(op, wants_sr=None):
    def m(ex, func, st, dn, av, rt):
        c = ex.case
        ex.oblige(st, z3.BoolVal(av[0].r is c.o and av[0].off.isconst() and av[0].off.c == off(ex, "off_glatch")), "the latch is the entry's own", "pre")
        ex.oblige(st, eq(ex.U(st, av[1]), c.tid), "the latch is requested for the transaction itself", "pre")
        name = op
        if op == "unlatch":
            x = av[2]; name = "unlatch X" if ex.proves(st, zb(x)) else "unlatch S" if ex.proves(st, Not(zb(x))) else "unlatch ?"
            ex.oblige(st, zb(av[3]), "the serializable mode is passed on", "pre")
        if op == "tryexclusivelatch": ex.oblige(st, zb(av[2]), "the serializable mode is passed on", "pre")
        r = fresh("granted", z3.BoolSort())
        st.notes["g"] = st.notes.get("g", ()) + ((name, r),)
        return [(st, r)]
    return m
VP = r"std::__shared_ptr_access<(Version|Transaction), \(__gnu_cxx::_Lock_policy\)2, false, false>::"
def sp_arrow(ex, func, st, dn, av, rt): return [(st, ex.load(st, func, Ty("ptr"), av[0]))]
CHAIN = [(re.compile(r"^std::shared_ptr<(Version|Transaction)>::shared_ptr\(std::shared_ptr<(Version|Transaction)> const&\)$"), sp_copy),
         (re.compile(r"^std::shared_ptr<(Version|Transaction)>::~shared_ptr\(\)$"), sp_nop), (re.compile("^" + VP + r"operator->\(\) const$"), sp_arrow),
         (re.compile(r"^.*std::make_shared<Version, "), mk_version),
         (re.compile(r"^Latch::lockShared\(\)$"), latch_event("shared")), (re.compile(r"^Latch::lockExclusive\(\)$"), latch_event("exclusive")), (re.compile(r"^Latch::unlock\(\)$"), latch_event("unlock")),
         (re.compile(r"^Version::get_version\("), delivered)] + \
        [(re.compile(rf"^GLatch::{o}\("), glatch(o)) for o in ("trysharedlatch", "tryexclusivelatch", "tryupgradelatch", "trydowngradelatch", "unlatch")]

class Chain(Contract):
    """the entry object, its chain of n >= 1 versions, the reader's two sets and a log of what was delivered into them"""
    models = CHAIN; budget = 90; latched_by_caller = False; least = 1; ordered = True
    opt = {"elem": {SPV: 16}, "elem_leaves": {SPV: [(0, Ty("ptr"))]}}
    def entry(self, ex, st):
        B, E = off(ex, "off_begin"), off(ex, "off_end")
        fam = Region("version", "fam"); fam.pre = True; fam.slotw[B] = fam.slotw[E] = 8
        o = Region("entry", "obj"); o.pre = True
        n = fresh("versions"); st.assume(z3.And(n >= self.least, n < 1 << 31))
        r = Region("vList", "arr", stride=16); r.pre = True; r.isvec = True; r.slotw[0] = 8; r.ptrfam[0] = fam
        set_vector(o, off(ex, "off_vlist"), r, n, 16)
        L = ex.arr_of(st, r, 0)
        st.assume(forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < n), L[q1] > 0)))
        st.assume(forall([q1, q2], z3.Implies(z3.And(q1 >= 0, q1 < n, q2 >= 0, q2 < n, L[q1] == L[q2]), q1 == q2)))
        b, e = ex.arr_of(st, fam, B), ex.arr_of(st, fam, E)
        st.assume(forall([q1], z3.And(b[q1] >= 0, b[q1] <= INV, e[q1] >= 0, e[q1] <= INV)))
        if self.ordered: st.assume(forall([q1, q2], z3.Implies(z3.And(q1 >= 0, q1 < q2, q2 < n), z3.And(b[L[q1]] < INV, b[L[q1]] <= b[L[q2]]))))      # committed versions first, oldest first; only the last can be private
        flag = off(ex, "off_flag"); o.init[flag] = ex.fresh_int(8, "is_versioned", st=st); o.slotw[flag] = 1
        cnt = Region("calls", "obj"); cnt.pre = True; cnt.init[0] = ex.const(64, 0); cnt.slotw[0] = 8
        log = Region("log", "arr", stride=8); log.pre = True; log.slotw[0] = 8; ex.arr_of(st, log, 0)
        pa, a0 = new_set(st, "add_set"); pd, d0 = new_set(st, "del_set")
        return dict(o=o, fam=fam, n=n, vl=r, L=L, b=b, e=e, B=B, E=E, cnt=cnt, log=log, pa=pa, pd=pd, a0=a0, d0=d0, latched_by_caller=self.latched_by_caller, tid=None)
    def txn(self, ex, st, tid, iso=None):
        T = Region("txn", "obj"); T.pre = True
        o1, o2, o3 = off(ex, "off_tid"), off(ex, "off_cid"), off(ex, "off_iso")
        cid = u64(ex, st, "commitID"); T.init[o1] = tid; T.init[o2] = cid; T.slotw[o1] = T.slotw[o2] = 8
        v = i32(ex, st, "isolation"); T.init[o3] = v; T.slotw[o3] = 4
        st.assume(z3.And(v.e >= 1, v.e <= 3))
        p = Region("txnptr", "obj"); p.pre = True; p.init[0] = Ptr(T); p.slotw[0] = 8
        return Ptr(p), cid.e, v.e
    def tidv(self, ex, st):
        t = u64(ex, st, "TID"); st.assume(t.e < INV); return t
    def now(self, ex, st, c):
        """(list, length, begin, end) after the call"""
        r = c.o; vo = off(ex, "off_vlist"); bp = st.mem.get((r.id, vo)) or r.init[vo]; ep = st.mem.get((r.id, vo + 8)) or r.init[vo + 8]
        if bp.r is not c.vl or not (bp.off.isconst() and bp.off.c == 0) or ep.r is not c.vl: raise Unsupported("the chain moved")
        return ex.arr_of(st, c.vl, 0), ze(ep.off.divmod(16)[0]), ex.arr_of(st, c.fam, c.B), ex.arr_of(st, c.fam, c.E)
    def logged(self, ex, st, c):
        n = st.mem.get((c.cnt.id, 0)) or c.cnt.init[0]
        return ex.arr_of(st, c.log, 0), ze(ex.U(st, n))
    def unchanged(self, ex, st, c):
        L, n, b, e = self.now(ex, st, c)
        return z3.And(n == c.n, forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < c.n), z3.And(L[q1] == c.L[q1], b[L[q1]] == c.b[c.L[q1]], e[L[q1]] == c.e[c.L[q1]]))))
    def released(self, st): return ("the entry's latch is released on the way out", z3.BoolVal(st.notes.get("held") is None))
    def private(self, c, i): return c.b[c.L[i]] == INV

class CheckVersion(Chain):
    name = f"IVEntry::checkVersion({U64}, bool)"; title = "IVEntry::checkVersion"; latched_by_caller = True
    def setup(self, ex):
        st = State(); d = self.entry(ex, st); t = self.tidv(ex, st); rc = fresh("IS_RC", z3.BoolSort())
        yield Case("", st, [Ptr(d["o"]), t, rc], rc=rc, t=t.e, **d)
    def spec(self, c, n, L, b, e, t, rc):
        last = L[n - 1]; priv = b[last] == INV
        return z3.And(z3.Implies(priv, e[last] == t), z3.Implies(z3.And(z3.Not(priv), z3.Not(rc)), t >= b[last]))
    def post(self, ex, c, st, ret):
        return [("a write is admitted unless another transaction's private version heads the chain or (snapshot) a newer one was committed", ze(ret) == self.spec(c, c.n, c.L, c.b, c.e, c.t, c.rc)), ("nothing is changed", self.unchanged(ex, st, c))]
class CheckHead(Chain):
    name = f"IVEntry::checkheadVersion({U64})"; title = "IVEntry::checkheadVersion"; latched_by_caller = True
    def setup(self, ex):
        st = State(); d = self.entry(ex, st); t = self.tidv(ex, st)
        yield Case("", st, [Ptr(d["o"]), t], t=t.e, **d)
    def post(self, ex, c, st, ret):
        r = ex.S(st, ret) if hasattr(ex, "S") else ex.U(st, ret); last = c.L[c.n - 1]; r = ze(r)
        return [("a head committed in the reader's past is readable", (r == 1) == (c.b[last] <= c.t)), ("an older transaction's private head refuses the read", (r == -1) == z3.And(c.b[last] == INV, c.e[last] < c.t)),
                ("anything else decides nothing", z3.Or(r == 1, r == -1, r == 0)), ("nothing is changed", self.unchanged(ex, st, c))]

class Proper(Chain):
    name = f"IVEntry::getProperVersion({U64}, {VS}, {VS})"; title = "IVEntry::getProperVersion"; latched_by_caller = True; budget = 150
    def setup(self, ex):
        st = State(); d = self.entry(ex, st); t = self.tidv(ex, st)
        yield Case("", st, [Ptr(d["o"]), t, d["pa"], d["pd"]], t=t.e, **d)
    def gen(self, ex, c, L):
        ks = [x for x in L.vars if x.kind == "int"]
        lg = lambda s: self.logged(ex, s.st, c)
        out = [("count", lambda s: lg(s)[1] == s["it"]), ("log", lambda s: forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < s["it"]), lg(s)[0][q1] == c.L[q1]))), ("inside", lambda s: s["it"] <= c.n)]
        if hasattr(c, "t"): out.append(("visible", lambda s: forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < s["it"], q1 < c.n), c.b[c.L[q1]] <= c.t))))
        return out
    def spec(self, ex, st, c):
        a, m = self.logged(ex, st, c); own = z3.And(c.b[c.L[c.n - 1]] == INV, c.e[c.L[c.n - 1]] == c.t)
        vis = lambda i: c.b[c.L[i]] <= c.t
        k = z3.If(own, m - 1, m)
        return [("oldest first, each version once", z3.And(k >= 0, k <= c.n, forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < k), a[q1] == c.L[q1])))),
                ("exactly the versions committed no later than the snapshot", forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < c.n), (q1 < k) == vis(q1)))),
                ("its own uncommitted version last", z3.Implies(own, a[m - 1] == c.L[c.n - 1]))]
    def post(self, ex, c, st, ret):
        return self.spec(ex, st, c) + [("nothing is changed", self.unchanged(ex, st, c))]
class Latest(Proper):
    name = f"IVEntry::getLatestVersion({U64}, {VS}, {VS})"; title = "IVEntry::getLatestVersion"; latched_by_caller = False
    def gen(self, ex, c, L): return [x for x in Proper.gen(self, ex, c, L) if x[0] != "visible"]
    def spec(self, ex, st, c):
        a, m = self.logged(ex, st, c); last = c.L[c.n - 1]
        com = lambda i: c.b[c.L[i]] < INV
        own = z3.And(c.b[last] == INV, c.e[last] == c.t)
        return [("oldest first, each version once", z3.And(m >= 0, m <= c.n, forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < m), a[q1] == c.L[q1])))),
                ("exactly the committed versions and its own uncommitted one", forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < c.n), (q1 < m) == z3.Or(com(q1), z3.And(q1 == c.n - 1, own)))))]
    def setup(self, ex):
        for case in Proper.setup(self, ex):
            c = case; last = c.L[c.n - 1]
            # the chain's stamps (kept by commit, see UnLatch): the newest committed version is open-ended, a private one ends at its owner, an identifier
            c.st.assume(z3.If(c.b[last] == INV, c.e[last] < INV, c.e[last] == INV))
            yield case
    def post(self, ex, c, st, ret): return Proper.post(self, ex, c, st, ret) + [self.released(st)]

class GetX(Chain):
    name = f"IVEntry::GetExclusiveLatch({SPT}, bool)"; title = "IVEntry::GetExclusiveLatch"; budget = 120; opt = dict(Chain.opt, inst=True)
    def setup(self, ex):
        st = State(); d = self.entry(ex, st); t = self.tidv(ex, st); d["tid"] = t.e; p, cid, iso = self.txn(ex, st, t); hr = fresh("has_read", z3.BoolSort())
        yield Case("", st, [Ptr(d["o"]), p, hr], t=t.e, cid=cid, iso=iso, hr=hr, **d)
    def post(self, ex, c, st, ret):
        r = ze(ex.U(st, ret)); L, n, b, e = self.now(ex, st, c); g = st.notes.get("g", ())
        rc = c.iso == 3; sr = c.iso == 1
        ok = CheckVersion.spec(self, c, c.n, c.L, c.b, c.e, c.t, rc)
        granted = z3.And([z3.BoolVal(True)] + [x[1] for x in g])
        asked = z3.BoolVal([x[0] for x in g] == ["tryupgradelatch"]), z3.BoolVal([x[0] for x in g] == ["tryexclusivelatch"]), z3.BoolVal(len(g) == 0)
        k = st.notes.get("made")
        res = [("0 or 1", z3.Or(r == 0, r == 1)),
               ("granted exactly when the chain admits the write and (serializable) the latch was obtained", (r == 1) == z3.And(ok, granted)),
               ("the latch is asked for exactly when it decides: upgraded by a reader, taken by a first writer", z3.If(z3.And(sr, ok), z3.If(c.hr, asked[0], asked[1]), asked[2])),
               ("a refusal changes nothing", z3.Implies(r == 0, self.unchanged(ex, st, c))),
               ("a grant adds one private version at the head", z3.Implies(r == 1, z3.And(n == c.n + 1, b[L[n - 1]] == INV, e[L[n - 1]] == c.t, L[n - 1] > 0))),
               ("a grant leaves the versions of the past as they were", z3.Implies(r == 1, forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < c.n), z3.And(L[q1] == c.L[q1], b[L[q1]] == c.b[c.L[q1]], e[L[q1]] == c.e[c.L[q1]]))))),
               ("the new version is no version of the past", z3.Implies(r == 1, forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < c.n), L[q1] != L[n - 1])))),
               ("decided and recorded under the exclusive latch", z3.BoolVal(st.notes.get("took") == ("exclusive", "unlock"))), self.released(st)]
        f = st.mem.get((c.o.id, off(ex, "off_flag")))
        if f is None: f = c.o.init[off(ex, "off_flag")]
        return res
class Rollback(Chain):
    name = f"IVEntry::InvalidExlusiveLatch({SPT}, bool)"; title = "IVEntry::InvalidExlusiveLatch"; least = 2
    def setup(self, ex):
        st = State(); d = self.entry(ex, st); t = self.tidv(ex, st); d["tid"] = t.e; p, cid, iso = self.txn(ex, st, t); hr = fresh("has_read", z3.BoolSort())
        last = d["L"][d["n"] - 1]; st.assume(z3.And(d["b"][last] == INV, d["e"][last] == t.e))       # the caller holds it: its private version heads the chain
        yield Case("", st, [Ptr(d["o"]), p, hr], t=t.e, cid=cid, iso=iso, hr=hr, **d)
    def gprot(self, ex): return None
    def post(self, ex, c, st, ret):
        r = ze(ret); L, n, b, e = self.now(ex, st, c); g = st.notes.get("g", ()); sr = c.iso == 1
        want = ["trydowngradelatch"], ["unlatch X"]
        names = [x[0] for x in g]; granted = z3.And([z3.BoolVal(True)] + [x[1] for x in g])
        return [("(serializable) the latch is downgraded for a reader, released otherwise", z3.If(sr, z3.If(c.hr, z3.BoolVal(names == want[0]), z3.BoolVal(names == want[1])), z3.BoolVal(not names))),
                ("true exactly when the latch operation succeeded", r == granted),
                ("the private version disappears, the others stay", z3.Implies(r, z3.And(n == c.n - 1, forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < n), z3.And(L[q1] == c.L[q1], b[L[q1]] == c.b[c.L[q1]], e[L[q1]] == c.e[c.L[q1]])))))),
                ("a failure changes nothing", z3.Implies(z3.Not(r), self.unchanged(ex, st, c))), ("under the exclusive latch", z3.BoolVal(st.notes.get("took") == ("exclusive", "unlock"))), self.released(st)]
    opt = dict(Chain.opt, throws_ok=True)       # assert(false) when a downgrade the protocol guarantees is refused
class Unlatch(Chain):
    name = f"IVEntry::UnLatch({SPT}, IVEntry::LatchType)"; title = "IVEntry::UnLatch"; least = 2; opt = dict(Chain.opt, inst=True)
    def setup(self, ex):
        st = State(); d = self.entry(ex, st); t = self.tidv(ex, st); d["tid"] = t.e; p, cid, iso = self.txn(ex, st, t); ty = i32(ex, st, "latch_type"); st.assume(z3.And(ty.e >= 0, ty.e <= 1))
        last, prev = d["L"][d["n"] - 1], d["L"][d["n"] - 2]
        st.assume(z3.Implies(ty.e == 1, z3.And(d["b"][last] == INV, d["e"][last] == t.e, cid < INV, d["b"][prev] < INV, d["b"][prev] <= cid)))
        yield Case("", st, [Ptr(d["o"]), p, ty], t=t.e, cid=cid, iso=iso, ty=ty.e, **d)
    def post(self, ex, c, st, ret):
        r = ze(ret); L, n, b, e = self.now(ex, st, c); g = st.notes.get("g", ()); sr = c.iso == 1; X = c.ty == 1
        names = [x[0] for x in g]; granted = z3.And([z3.BoolVal(True)] + [x[1] for x in g])
        done = z3.And(X, r)
        return [("the right latch is released, and only in serializable mode", z3.If(sr, z3.If(X, z3.BoolVal(names == ["unlatch X"]), z3.BoolVal(names == ["unlatch S"])), z3.BoolVal(not names))),
                ("true exactly when the release succeeded", z3.Implies(z3.Or(X, sr), r == granted)), ("a shared release outside serializable mode is refused", z3.Implies(z3.And(z3.Not(X), z3.Not(sr)), z3.Not(r))),
                ("commit turns the private version into the newest committed one, stamped with the commit point", z3.Implies(done, z3.And(n == c.n, b[L[n - 1]] == c.cid, e[L[n - 1]] == INV, L[n - 1] == c.L[c.n - 1]))),
                ("the version before it ends there", z3.Implies(done, z3.And(e[L[n - 2]] == c.cid, b[L[n - 2]] == c.b[c.L[n - 2]]))),
                ("older versions stay", z3.Implies(done, forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < c.n - 2), z3.And(L[q1] == c.L[q1], b[L[q1]] == c.b[c.L[q1]], e[L[q1]] == c.e[c.L[q1]]))))),
                ("anything else changes nothing", z3.Implies(z3.Not(done), self.unchanged(ex, st, c))),
                ("stamped under the exclusive latch", z3.Implies(X, z3.BoolVal(st.notes.get("took") == ("exclusive", "unlock")))), self.released(st)]

class Read(Chain):
    """getProperVersion, getLatestVersion and checkheadVersion are verified in place (inlined)"""
    name = f"IVEntry::ReadVersion({VS}, {VS}, {SPT}, bool&, bool)"; title = "IVEntry::ReadVersion"; budget = 200
    def setup(self, ex):
        st = State(); d = self.entry(ex, st); t = self.tidv(ex, st); d["tid"] = t.e; p, cid, iso = self.txn(ex, st, t); fr = fresh("first_read", z3.BoolSort())
        lp = Region("latched", "obj"); lp.pre = True; lp.init[0] = ex.const(8, 0); lp.slotw[0] = 1
        last = d["L"][d["n"] - 1]; b, e = d["b"], d["e"]
        st.assume(z3.If(b[last] == INV, e[last] < INV, e[last] == INV))
        yield Case("", st, [Ptr(d["o"]), d["pa"], d["pd"], p, Ptr(lp), fr], t=t.e, iso=iso, fr=fr, lp=lp, **d)
    def gen(self, ex, c, L): return Proper.gen(self, ex, c, L)
    def post(self, ex, c, st, ret):
        r = ze(ret); g = st.notes.get("g", ()); names = [x[0] for x in g]; last = c.L[c.n - 1]; sr, rc = c.iso == 1, c.iso == 3
        head = z3.And(c.b[last] == INV, c.e[last] < c.t); cm = c.b[last] <= c.t
        asked = z3.BoolVal(names == ["trysharedlatch"]); none = z3.BoolVal(not names); granted = z3.And([z3.BoolVal(True)] + [x[1] for x in g])
        lv = st.mem.get((c.lp.id, 0), c.lp.init[0]); lv = zb(lv) if isinstance(lv, (bool, z3.BoolRef)) else ze(ex.U(st, lv)) != 0
        P = Proper.spec(self, ex, st, c); Q = Latest.spec(self, ex, st, c)
        out = [("only a serializable read can be refused", z3.Implies(z3.Not(sr), z3.And(r, none))),
               ("a serializable read is refused behind an older transaction's private version, or without the shared latch", z3.Implies(sr, r == z3.And(z3.Not(head), granted))),
               ("the shared latch is taken by a first read of a committed head", z3.Implies(sr, z3.If(z3.And(cm, c.fr), asked, none))),
               ("the caller is told whether it holds the shared latch", lv == (z3.And(asked, granted) if names else z3.BoolVal(False))), self.released(st), ("nothing is changed", self.unchanged(ex, st, c))]
        out += [("read committed: " + nm, z3.Implies(rc, f)) for nm, f in Q] + [("snapshot and serializable: " + nm, z3.Implies(z3.And(r, z3.Not(rc)), f)) for nm, f in P]
        return out
def ver_event(kind):
    def m(ex, func, st, dn, av, rt):
        """Version::add / remove at a call site, by contract: the last operation on a pair decides"""
        c = ex.case; v = av[0]
        if not av[1].parts: raise Unsupported("pair passed as an opaque word")
        q = ze(add(mul(ex.U(st, av[1].parts[0]), W), ex.U(st, av[1].parts[1])))
        ex.oblige(st, eq(v.key, c.L[c.n - 1]), "only the writer's own version, the head of the chain, is written", "pre")
        ex.oblige(st, z3.BoolVal(st.notes.get("held") is not None), "written under the entry's latch", "pre")
        mine, other = (c.ga, c.gd) if kind == "add" else (c.gd, c.ga)
        sets.put(st, mine, z3.Store(set_of(st, mine), q, z3.BoolVal(True))); sets.put(st, other, z3.Store(set_of(st, other), q, z3.BoolVal(False)))
        return [(st, None)]
    return m
class Write(Chain):
    name = f"IVEntry::WriteVersion({VS}, {VS}, {SPT})"; title = "IVEntry::WriteVersion"; opt = dict(Chain.opt, inst=True)
    models = [(re.compile(r"^Version::add\("), ver_event("add")), (re.compile(r"^Version::remove\("), ver_event("remove"))] + CHAIN
    def setup(self, ex):
        st = State(); d = self.entry(ex, st); t = self.tidv(ex, st); d["tid"] = t.e; p, cid, iso = self.txn(ex, st, t)
        last = d["L"][d["n"] - 1]; st.assume(z3.And(d["b"][last] == INV, d["e"][last] == t.e))
        ga, g0 = new_set(st, "head.added"); gd, h0 = new_set(st, "head.removed")
        yield Case("", st, [Ptr(d["o"]), d["pa"], d["pd"], p], t=t.e, ga=ga, gd=gd, g0=g0, h0=h0, **d)
    def gen(self, ex, c, L):
        reg = [x.region for x in L.vars if x.kind == "ptr" and hasattr(x.region, "setseq")]
        if not reg: return []
        r = reg[0]; key, n, el = r.setseq; adding = key == sets.skey(c.pa)
        A = lambda s: set_of(s.st, c.ga); D = lambda s: set_of(s.st, c.gd)
        S = c.a0 if adding else c.d0
        A1, D1 = set_of(L.st0, c.ga), set_of(L.st0, c.gd)
        mine, other, m1, o1 = (A, D, A1, D1) if adding else (D, A, D1, A1)
        return [("inside", lambda s: s["it"] <= n), ("done", lambda s: forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < s["it"]), z3.And(mine(s)[el(q1)], z3.Not(other(s)[el(q1)]))))),
                ("kept", lambda s: forall([q1], z3.And(z3.Implies(m1[q1], mine(s)[q1]), z3.Implies(other(s)[q1], o1[q1])))),
                ("only", lambda s: forall([q1], z3.Implies(z3.Not(S[q1]), z3.And(mine(s)[q1] == m1[q1], other(s)[q1] == o1[q1]))))]
    def post(self, ex, c, st, ret):
        A, D = set_of(st, c.ga), set_of(st, c.gd)
        return [("removals recorded", forall([q1], z3.Implies(c.d0[q1], z3.And(D[q1], z3.Not(A[q1]))))), ("additions recorded", forall([q1], z3.Implies(z3.And(c.a0[q1], z3.Not(c.d0[q1])), z3.And(A[q1], z3.Not(D[q1]))))),
                ("nothing else recorded", forall([q1], z3.Implies(z3.And(z3.Not(c.a0[q1]), z3.Not(c.d0[q1])), z3.And(A[q1] == c.g0[q1], D[q1] == c.h0[q1])))),
                ("the caller's sets and the chain are not changed", z3.And(set_of(st, c.pa) == c.a0, set_of(st, c.pd) == c.d0, self.unchanged(ex, st, c))), self.released(st)]
FUNCS = [EXP, DA, DR, Add(), Remove(), GetAdd(), GetDel(), GetVersion(), CheckVersion(), CheckHead(), Proper(), Latest(), GetX(), Rollback(), Unlatch(), Read(), Write()]
HARNESS = {"src": "C04.cpp", "tus": ["Util/Version.cpp", "KVstore/IVArray/IVEntry.cpp", "KVstore/IVArray/IVArray.cpp", "KVstore/IVArray/IVBlockManager.cpp", "Util/GraphLock.cpp", "Util/Latch.cpp", "Util/Transaction.cpp", "Util/Bstr.cpp", "Util/Util.cpp", "Util/VList.cpp"], "secs": 12}
ASSUMPTIONS = ["std::set of pairs, std::shared_ptr and std::vector<shared_ptr> behave as the standard says (modelled)", "GLatch operations by their C05 contracts; Latch gives reader/writer exclusion",
               "versions of a chain: committed ones first in commit order, at most one private one, last, whose end stamp is its owner's identifier (established by GetExclusiveLatch and UnLatch under the callers' protocol)",
               "fewer than 2^26 records per version"]
BOUNDED = ["IVArray (growth, base list plus versions), whole histories of several transactions, CleanAllVersion: harness only"]
