"""C14: the heap of buffered nodes and the min-max heap of top-k queries."""
import re, os
from spec import *
from models import linz, MESSAGES
from vals import *

ID = "C14"
INST = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/inst/C14.cpp"
TUS = ["KVstore/SITree/heap/SIHeap.cpp", "KVstore/SITree/node/SINode.cpp", INST]
_off = {}
def off(ex, nm):
    if nm not in _off:
        g = next(m.globals[x] for m in ex.mods for x in m.globals if x.lstrip("@").strip('"') == "gvc_" + nm)
        for v in (g if isinstance(g, (list, tuple)) else [g]):
            m = re.search(r"constant i64 (\d+)", str(v))
            if m: _off[nm] = int(m.group(1))
    return _off[nm]

# ---------------------------------------------------------------- heap of nodes, smallest rank on top
RANK = z3.Function("rank", z3.IntSort(), z3.IntSort())     # of the flag word; getRank is proved to give its low 24 bits
class GetRank(Contract):
    name = "SINode::getRank() const"; title = "SINode::getRank"
    def setup(self, ex):
        st = State(); o = Region("node", "obj"); o.pre = True; f = u32(ex, st, "flag"); F = off(ex, "off_flag"); o.init[F] = f; o.slotw[F] = 4
        yield Case("", st, [Ptr(o)], f=f.e)
    def post(self, ex, c, st, ret): return [("the low 24 bits of the flags", ze(ex.U(st, ret)) == c.f % (1 << 24))]
    def apply(self, ex, func, st, av, rt):
        p = av[0]; f = ex.load(st, func, Ty("i", 32), Ptr(p.r, p.off.add(Lin(off(ex, "off_flag"))), p.key)); r = RANK(ze(ex.U(st, f))); st.assume(z3.And(r >= 0, r < 1 << 24))
        return [(st, IV(32, r, 0, (1 << 24) - 1))]
GR = GetRank()
LMAX = 1 << 29
class Heap:
    def __init__(self, ex, st):
        self.fam = Region("nodes", "fam"); self.fam.pre = True; self.F, self.I = off(ex, "off_flag"), off(ex, "off_id"); self.fam.slotw[self.F] = 4; self.fam.slotw[self.I] = 4; self.fam.signed.add(self.I)
        self.f0 = ex.arr_of(st, self.fam, self.F); self.i0 = ex.arr_of(st, self.fam, self.I)
        o = self.o = Region("heap", "obj"); o.pre = True; n, s = fresh("length"), fresh("size"); self.n, self.s = n, s
        st.assume(z3.And(0 <= n, n <= s, s < LMAX))
        H, L, S = off(ex, "off_heap"), off(ex, "off_length"), off(ex, "off_size"); self.H, self.L, self.S = H, L, S
        o.init[L] = IV(32, n, 0, LMAX); o.init[S] = IV(32, s, 0, LMAX); o.slotw[L] = o.slotw[S] = 4; o.slotw[H] = 8
        p = array(ex, st, "slots", s, 8); self.r = p.r; p.r.slotw.clear(); p.r.init.clear(); p.r.slotw[0] = 8; p.r.ptrfam[0] = self.fam; o.init[H] = p; p.r.heap = "malloc"
        self.h0 = ex.arr_of(st, p.r, 0)
        st.assume(forall([q1], z3.And(self.i0[q1] >= -(1 << 31), self.i0[q1] < 1 << 31))); st.assume(forall([q1], z3.And(self.f0[q1] >= 0, self.f0[q1] < 1 << 32)))
    def now(self, ex, st):
        """slots, places, length"""
        p = st.mem.get((self.o.id, self.H)) or self.o.init[self.H]; n = ze(ex.U(st, st.mem.get((self.o.id, self.L)) or self.o.init[self.L]))
        return ex.arr_of(st, p.r, 0), ex.arr_of(st, self.fam, self.I), n, p
    def rk(self, x): return RANK(self.f0[x])
    def ordered(self, h, n, rk=None, skip=None):
        """every element but the one at position skip is not below its parent; h may be a function"""
        rk = rk or self.rk; H = h if callable(h) else lambda i: h[i]
        b = z3.And(0 <= q1, q2 < n, z3.Or(q2 == 2 * q1 + 1, q2 == 2 * q1 + 2))
        if skip is not None: b = z3.And(b, skip(q1, q2))
        return forall([q1, q2], z3.Implies(b, rk(H(q1)) <= rk(H(q2))))
    def placed(self, h, ids, n): return forall([q1], z3.Implies(z3.And(0 <= q1, q1 < n), z3.And(h[q1] > 0, ids[h[q1]] == q1)))
def minimal(N, h, n): return forall([q1], z3.Implies(z3.And(0 <= q1, q1 < n), N.rk(h[0]) <= N.rk(h[q1])))
def lemma(N):
    """the root is minimal: strong induction over the position, the step as an obligation"""
    h = z3.Const("LH", int_arr()); n, k = z3.Ints("Ln Lk")
    return ("lemma: in an ordered array the first element is the smallest (induction step)", z3.Implies(z3.And(0 < k, k < n, N.ordered(h, n), forall([q3], z3.Implies(z3.And(0 <= q3, q3 < k), N.rk(h[0]) <= N.rk(h[q3]))), z3.Or(k == 2 * ((k - 1) / 2) + 1, k == 2 * ((k - 1) / 2) + 2), N.rk(h[(k - 1) / 2]) == N.rk(h[(k - 1) / 2])), N.rk(h[0]) <= N.rk(h[k])))
class HeapOp(Contract):
    uses = (GR,); budget = 200; opt = {"inst": True}; models = MESSAGES
    def common(self, ex, c, st):
        N = c.N; fl = ex.arr_of(st, N.fam, N.F)
        return [("ranks and all other flags are kept", fl == N.f0)]
    def hole(self, c, v, i, x):
        """array seen with the element x at position i"""
        h, ids, n, p = c.N.now(v.ex, v.st); return (lambda k: z3.If(k == i, x, h[k])), h, ids
class Insert(HeapOp):
    name = "SIHeap::Insert(SINode*)"; title = "SIHeap::Insert"
    def setup(self, ex):
        st = State(); N = Heap(ex, st); x = fresh("node"); st.assume(x > 0)
        st.assume(N.ordered(N.h0, N.n)); st.assume(N.placed(N.h0, N.i0, N.n)); st.assume(forall([q1], z3.Implies(z3.And(0 <= q1, q1 < N.n), N.h0[q1] != x)))
        yield Case("", st, [Ptr(N.o), Ptr(N.fam, Lin(0), x)], N=N, x=x)
    def gen(self, ex, c, L):
        N, x = c.N, c.x
        for i in L.vars:
            if i.kind != "int": continue
            yield f"hole {i.name} range", lambda v, i=i: z3.And(0 <= v[i], v[i] <= N.n)
            def f1(v, i=i): V, h, ids = self.hole(c, v, v[i], x); return N.ordered(V, N.n + 1, skip=lambda p, ch: ch != v[i])
            def f2(v, i=i): V, h, ids = self.hole(c, v, v[i], x); return forall([q1, q2], z3.Implies(z3.And(0 <= q1, z3.Or(v[i] == 2 * q1 + 1, v[i] == 2 * q1 + 2), z3.Or(q2 == 2 * v[i] + 1, q2 == 2 * v[i] + 2), q2 <= N.n), N.rk(h[q1]) <= N.rk(h[q2])))
            def f3(v, i=i): V, h, ids = self.hole(c, v, v[i], x); return forall([q1], z3.Implies(z3.And(0 <= q1, q1 <= N.n, q1 != v[i]), z3.And(h[q1] > 0, h[q1] != x, ids[h[q1]] == q1)))
            def f4(v, i=i): V, h, ids = self.hole(c, v, v[i], x); return forall([q1], z3.Implies(z3.And(0 <= q1, q1 < N.n), z3.And(0 <= ids[N.h0[q1]], ids[N.h0[q1]] <= N.n, ids[N.h0[q1]] != v[i], h[ids[N.h0[q1]]] == N.h0[q1])))
            def f5(v, i=i): V, h, ids = self.hole(c, v, v[i], x); return forall([q1], z3.Implies(z3.And(0 <= q1, q1 <= N.n, q1 != v[i]), z3.And(0 <= N.i0[h[q1]], N.i0[h[q1]] < N.n, N.h0[N.i0[h[q1]]] == h[q1])))
            def f6(v, i=i): V, h, ids = self.hole(c, v, v[i], x); return forall([q1], z3.Implies(z3.Not(z3.And(0 <= N.i0[q1], N.i0[q1] < N.n, N.h0[N.i0[q1]] == q1)), ids[q1] == N.i0[q1]))
            for k, f in enumerate((f1, f2, f3, f4, f5, f6)): yield f"heap with a hole at {i.name} ({k})", f
    def post(self, ex, c, st, ret):
        N, x = c.N, c.x; h, ids, n, p = N.now(ex, st); s = ze(ex.U(st, st.mem.get((N.o.id, N.S)) or N.o.init[N.S]))
        return [("accepted", ze(ret) == z3.BoolVal(True)), ("one element more, within the capacity", z3.And(n == N.n + 1, n <= s, z3.BoolVal(p.off.isconst() and p.off.c == 0), ze(p.r.nbytes.expr()) == 8 * s)), ("no element is below its parent", N.ordered(h, n)), ("every element knows its place", N.placed(h, ids, n)),
                ("the new element is in the heap", z3.And(0 <= ids[x], ids[x] < n, h[ids[x]] == x)), ("no element is lost", forall([q1], z3.Implies(z3.And(0 <= q1, q1 < N.n), z3.And(0 <= ids[N.h0[q1]], ids[N.h0[q1]] < n, h[ids[N.h0[q1]]] == N.h0[q1])))),
                ("no other element appears", forall([q1], z3.Implies(z3.And(0 <= q1, q1 < n), z3.Or(h[q1] == x, z3.And(0 <= N.i0[h[q1]], N.i0[h[q1]] < N.n, N.h0[N.i0[h[q1]]] == h[q1]))))),
                ("nodes outside the heap keep their place mark", forall([q1], z3.Implies(z3.And(q1 != x, z3.Not(z3.And(0 <= N.i0[q1], N.i0[q1] < N.n, N.h0[N.i0[q1]] == q1))), ids[q1] == N.i0[q1])))] + self.common(ex, c, st)

def inpos(h, n, i, x): return z3.And(0 <= i[x], i[x] < n, h[i[x]] == x)      # x is in the heap, at its place
class RemoveTop(HeapOp):
    name = "SIHeap::RemoveTop()"; title = "SIHeap::RemoveTop"
    def setup(self, ex):
        st = State(); N = Heap(ex, st); st.assume(N.ordered(N.h0, N.n)); st.assume(N.placed(N.h0, N.i0, N.n)); yield Case("", st, [Ptr(N.o)], N=N)
    def gen(self, ex, c, L):
        N = c.N; m = N.n - 1; x = N.h0[m]; top = N.h0[0]
        for i in L.vars:
            if i.kind != "int": continue
            yield f"hole {i.name} range", lambda v, i=i: z3.And(0 <= v[i], v[i] < m)
            for j in L.vars:
                if j.kind == "int" and j is not i: yield f"{j.name} is the left child of {i.name}", lambda v, i=i, j=j: v[j] == 2 * v[i] + 1
            def f1(v, i=i): V, h, ids = self.hole(c, v, v[i], x); return N.ordered(V, m, skip=lambda p, ch: p != v[i])
            def f2(v, i=i): h = N.now(v.ex, v.st)[0]; return forall([q1, q2], z3.Implies(z3.And(0 <= q1, z3.Or(v[i] == 2 * q1 + 1, v[i] == 2 * q1 + 2), z3.Or(q2 == 2 * v[i] + 1, q2 == 2 * v[i] + 2), q2 < m), N.rk(h[q1]) <= N.rk(h[q2])))
            def f3(v, i=i): h, ids, n, p = N.now(v.ex, v.st); return forall([q1], z3.Implies(z3.And(0 <= q1, q1 < m, q1 != v[i]), z3.And(h[q1] > 0, h[q1] != x, h[q1] != top, ids[h[q1]] == q1)))
            def f4(v, i=i): h, ids, n, p = N.now(v.ex, v.st); return forall([q1], z3.Implies(z3.And(0 < q1, q1 < m), z3.And(0 <= ids[N.h0[q1]], ids[N.h0[q1]] < m, ids[N.h0[q1]] != v[i], h[ids[N.h0[q1]]] == N.h0[q1])))
            def f5(v, i=i): h, ids, n, p = N.now(v.ex, v.st); return forall([q1], z3.Implies(z3.And(0 <= q1, q1 < m, q1 != v[i]), inpos(N.h0, N.n, N.i0, h[q1])))
            def f6(v, i=i): h, ids, n, p = N.now(v.ex, v.st); return forall([q1], z3.Implies(z3.Not(inpos(N.h0, N.n, N.i0, q1)), ids[q1] == N.i0[q1]))
            def f7(v, i=i): h, ids, n, p = N.now(v.ex, v.st); return forall([q1], z3.Implies(z3.And(0 <= q1, z3.Or(v[i] == 2 * q1 + 1, v[i] == 2 * q1 + 2)), N.rk(h[q1]) <= N.rk(x)))
            def f8(v, i=i): h, ids, n, p = N.now(v.ex, v.st); return ids[top] == -1
            for k, f in enumerate((f1, f2, f3, f4, f5, f6, f7, f8)): yield f"heap with a hole at {i.name} ({k})", f
    def post(self, ex, c, st, ret):
        N = c.N; h, ids, n, p = N.now(ex, st); top = N.h0[0]; emp = N.n == 0
        return [("refused exactly on an empty heap", ze(ret) == (N.n > 0)), ("one element less", n == z3.If(emp, 0, N.n - 1)), ("no element is below its parent", N.ordered(h, n)), ("every element knows its place", N.placed(h, ids, n)),
                ("the removed element has no place", z3.Implies(z3.Not(emp), z3.And(ids[top] == -1, forall([q1], z3.Implies(z3.And(0 <= q1, q1 < n), h[q1] != top))))),
                ("no other element is lost", forall([q1], z3.Implies(z3.And(0 < q1, q1 < N.n), inpos(h, n, ids, N.h0[q1])))),
                ("no other element appears", forall([q1], z3.Implies(z3.And(0 <= q1, q1 < n), inpos(N.h0, N.n, N.i0, h[q1])))),
                ("nodes outside the heap keep their place mark", forall([q1], z3.Implies(z3.Not(inpos(N.h0, N.n, N.i0, q1)), ids[q1] == N.i0[q1])))] + self.common(ex, c, st)
class Modify(HeapOp):
    """the rank of the node changed since the heap was ordered: before it was r0"""
    name = "SIHeap::modify(SINode*, bool)"; title = "SIHeap::modify"
    def setup(self, ex):
        for up in (True, False):
            st = State(); N = Heap(ex, st); x = fresh("node"); st.assume(x > 0); r0 = fresh("rank0"); rk = lambda y: z3.If(y == x, r0, N.rk(y))
            st.assume(N.placed(N.h0, N.i0, N.n)); st.assume(inpos(N.h0, N.n, N.i0, x)); st.assume(N.ordered(N.h0, N.n, rk=rk)); st.assume(N.rk(x) <= r0 if up else N.rk(x) >= r0)
            yield Case("lowered" if up else "raised", st, [Ptr(N.o), Ptr(N.fam, Lin(0), x), up], N=N, x=x, up=up, has=True)
        st = State(); N = Heap(ex, st); x = fresh("node"); st.assume(x > 0); st.assume(N.i0[x] < 0); st.assume(N.ordered(N.h0, N.n)); st.assume(N.placed(N.h0, N.i0, N.n))
        yield Case("not in the heap", st, [Ptr(N.o), Ptr(N.fam, Lin(0), x), fresh("flag", z3.BoolSort())], N=N, x=x, up=None, has=False)
    def gen(self, ex, c, L):
        N, x = c.N, c.x
        for i in L.vars:
            if i.kind != "int": continue
            now = lambda v: N.now(v.ex, v.st)
            yield f"{i.name} range", lambda v, i=i: z3.And(0 <= v[i], v[i] < N.n)
            yield f"{i.name} holds the node", lambda v, i=i: z3.And(now(v)[0][v[i]] == x, now(v)[1][x] == v[i])
            for j in L.vars:
                if j.kind == "int" and j is not i: yield f"{j.name} is the left child of {i.name}", lambda v, i=i, j=j: v[j] == 2 * v[i] + 1
            yield f"ordered but for {i.name} and its parent", lambda v, i=i: N.ordered(now(v)[0], N.n, skip=lambda p, ch: ch != v[i])
            yield f"ordered but for {i.name} and its children", lambda v, i=i: N.ordered(now(v)[0], N.n, skip=lambda p, ch: p != v[i])
            def f2(v, i=i): h = now(v)[0]; return forall([q1, q2], z3.Implies(z3.And(0 <= q1, z3.Or(v[i] == 2 * q1 + 1, v[i] == 2 * q1 + 2), z3.Or(q2 == 2 * v[i] + 1, q2 == 2 * v[i] + 2), q2 < N.n), N.rk(h[q1]) <= N.rk(h[q2])))
            yield f"around {i.name}", f2
        def g(f): return lambda v: f(*N.now(v.ex, v.st)[:2])
        yield "placed", g(lambda h, ids: N.placed(h, ids, N.n))
        yield "not lost", g(lambda h, ids: forall([q1], z3.Implies(z3.And(0 <= q1, q1 < N.n), inpos(h, N.n, ids, N.h0[q1]))))
        yield "not new", g(lambda h, ids: forall([q1], z3.Implies(z3.And(0 <= q1, q1 < N.n), inpos(N.h0, N.n, N.i0, h[q1]))))
        yield "outside", g(lambda h, ids: forall([q1], z3.Implies(z3.Not(inpos(N.h0, N.n, N.i0, q1)), ids[q1] == N.i0[q1])))
    def post(self, ex, c, st, ret):
        N = c.N; h, ids, n, p = N.now(ex, st)
        return [("refused exactly when the node has no place", ze(ret) == z3.BoolVal(c.has)), ("the number of elements is kept", n == N.n), ("no element is below its parent", N.ordered(h, n)), ("every element knows its place", N.placed(h, ids, n)),
                ("no element is lost", forall([q1], z3.Implies(z3.And(0 <= q1, q1 < N.n), inpos(h, n, ids, N.h0[q1])))), ("no other element appears", forall([q1], z3.Implies(z3.And(0 <= q1, q1 < n), inpos(N.h0, N.n, N.i0, h[q1])))),
                ("nodes outside the heap keep their place mark", forall([q1], z3.Implies(z3.Not(inpos(N.h0, N.n, N.i0, q1)), ids[q1] == N.i0[q1])))] + self.common(ex, c, st)
class Query(HeapOp):
    what = ""
    def setup(self, ex):
        st = State(); N = Heap(ex, st); st.assume(N.ordered(N.h0, N.n)); st.assume(N.placed(N.h0, N.i0, N.n)); yield Case("", st, [Ptr(N.o)], N=N)
    def post(self, ex, c, st, ret):
        N = c.N
        if self.what == "len": return [("the number of elements", ze(ex.U(st, ret)) == N.n)]
        if self.what == "empty": return [("empty exactly when it holds nothing", ze(ret) == (N.n == 0))]
        if ret.r is None: return [("nothing exactly when empty", N.n == 0), lemma(N)]
        return [("the first element", z3.And(N.n > 0, ze(ret.key) == N.h0[0], ze(ret.key) > 0)), lemma(N)]
def qy(nm, what): return type("Query", (Query,), {"name": nm, "title": nm, "what": what})()

# ---------------------------------------------------------------- min-max heap (instantiated for int): the largest element at position 0, levels alternate
LV = z3.Function("level", z3.IntSort(), z3.IntSort())       # floor of the binary logarithm
MIN = z3.Function("minlevel", z3.IntSort(), z3.BoolSort())
CNT = z3.Function("count", int_arr(), z3.IntSort(), z3.IntSort())   # occurrences of one arbitrary value V0 in the first n elements
V0 = z3.Int("V0")
MM = "minmax::MinMaxHeap<int, std::vector<int, std::allocator<int> >, std::less<int> >::"
NM = 1 << 29
child = lambda p, c: z3.Or(c == 2 * p + 1, c == 2 * p + 2)
grand = lambda g, d: z3.And(4 * g + 3 <= d, d <= 4 * g + 6)
LVAX = z3.And(LV(1) == 0, forall([q1], z3.Implies(q1 >= 2, LV(q1) == LV(q1 / 2) + 1)))
AX = z3.And(z3.Not(MIN(0)), forall([q1, q2], z3.Implies(z3.And(0 <= q1, child(q1, q2)), MIN(q2) == z3.Not(MIN(q1)))), forall([q1, q2], z3.Implies(z3.And(0 <= q1, grand(q1, q2)), MIN(q2) == MIN(q1))))
def rel1(a, n, skip=None):
    b = z3.And(0 <= q1, q2 < n, child(q1, q2)); b = z3.And(b, skip(q1, q2)) if skip else b
    return forall([q1, q2], z3.Implies(b, z3.If(MIN(q2), a[q2] <= a[q1], a[q2] >= a[q1])))
def rel2(a, n, skip=None):
    b = z3.And(0 <= q1, q2 < n, grand(q1, q2)); b = z3.And(b, skip(q1, q2)) if skip else b
    return forall([q1, q2], z3.Implies(b, z3.If(MIN(q2), a[q2] >= a[q1], a[q2] <= a[q1])))
def mmh(a, n): return z3.And(rel1(a, n), rel2(a, n))
def cnt_facts(arr, n):
    """what counting is: one more element, an exchange of two elements keeps the count, writes behind the end do not count"""
    out = []; seen = set(); todo = [arr]
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        for k in (n, n - 1, n + 1): out.append(z3.Implies(k >= 0, CNT(t, k + 1) == CNT(t, k) + z3.If(t[k] == V0, 1, 0)))
        if not z3.is_store(t): continue
        b, i, x = t.children(); todo.append(b)
        for k in (n - 1, n, n + 1): out.append(z3.Implies(i >= k, CNT(t, k) == CNT(b, k)))
        if z3.is_store(b):
            b2, j, y = b.children()
            for k in (n - 1, n, n + 1): out.append(z3.Implies(z3.And(0 <= i, i < k, 0 <= j, j < k, y == b2[i], x == b2[j]), CNT(t, k) == CNT(b2, k)))
    return out
class LevelOf(Contract):
    name = "minmax::log2(unsigned int)"; title = "minmax::log2"
    def setup(self, ex):
        st = State(); z = u32(ex, st, "zvalue"); st.assume(z.e >= 1); st.assume(LVAX); yield Case("", st, [z], z=z.e)
    def gen(self, ex, c, L):
        for x in L.vars:
            for y in L.vars:
                if x is not y and x.kind == y.kind == "int": yield f"{y.name} levels stripped, {x.name} left", lambda v, x=x, y=y: z3.And(v[x] >= 0, v[y] >= 0, v[y] <= 32, z3.If(v[x] > 0, v[y] + LV(v[x]) == LV(c.z), v[y] == LV(c.z) + 1), z3.Implies(v[x] > 0, z3.And([z3.Implies(v[y] == k, v[x] < 1 << (32 - k)) for k in range(33)])))
    def post(self, ex, c, st, ret):
        z = z3.Int("Lz"); m = lambda i: LV(i + 1) % 2 == 1
        return [("the level of the position", ze(ex.U(st, ret)) == LV(c.z)),
                ("lemma: children are on the other kind of level", z3.Implies(z3.And(z >= 0, LV(2 * z + 2) == LV((2 * z + 2) / 2) + 1, LV(2 * z + 3) == LV((2 * z + 3) / 2) + 1, (2 * z + 2) / 2 == z + 1, (2 * z + 3) / 2 == z + 1, LV(z + 1) >= 0), z3.And(m(2 * z + 1) == z3.Not(m(z)), m(2 * z + 2) == z3.Not(m(z))))), ("lemma: the root is on a maximum level", z3.Implies(LVAX, z3.Not(m(0))))]
    def apply(self, ex, func, st, av, rt):
        z = ze(ex.U(st, av[0])); ex.oblige(st, z >= 1, "the logarithm is asked of a positive number", "pre"); r = LV(z); st.assume(z3.And(r >= 0, r < 32)); st.assume(MIN(z - 1) == (r % 2 == 1)); return [(st, IV(32, r, 0, 31))]
LVL = LevelOf()
class MinLevel(Contract):
    name = MM + "isOnMinLevel(unsigned int)"; title = "MinMaxHeap::isOnMinLevel"; uses = (LVL,)
    def setup(self, ex): st = State(); z = u32(ex, st, "zindex"); st.assume(z.e < NM); yield Case("", st, [z], z=z.e)
    def post(self, ex, c, st, ret): return [("the kind of the level", ze(ret) == MIN(c.z))]
    def apply(self, ex, func, st, av, rt): return [(st, MIN(ze(ex.U(st, av[0]))))]
ML = MinLevel()
class MMOp(Contract):
    uses = (ML,); budget = 200; opt = {"inst": True, "throws_ok": False}; last = False
    def state(self, ex, extra=0):
        st = State(); n = fresh("n"); st.assume(z3.And(n >= 0, n < NM)); p, r = vector(ex, st, "heap_", n, 4); r.signed.add(0); st.assume(AX); a = ex.arr_of(st, r, 0)
        st.assume(forall([q1], z3.And(a[q1] >= -(1 << 31), a[q1] < 1 << 31))); p.r.nbytes = Lin(32); return st, n, p, r, a
    def now(self, ex, st, c): return ex.arr_of(st, c.r, 0), ze(vec_size(ex, st, c.p, 4)[1])
    def site(self, ex, st, av):
        """array and length at a call of this operation on the heap of the case"""
        c = ex.case
        if not isinstance(av[0], Ptr) or av[0].r is not c.p.r or not (av[0].off.isconst() and av[0].off.c == 0): raise Unsupported("operation on another heap")
        return self.now(ex, st, c) + (c,)
    def replace(self, ex, st, c, a, n, facts):
        """the heap's contents become an arbitrary array of n elements with the given facts"""
        b = fresh("heap", a.sort()); st.mem[(c.r.id, 0)] = b; st.writes.append((c.r, 0, None, b))
        st.assume(forall([q1], z3.And(b[q1] >= -(1 << 31), b[q1] < 1 << 31)))
        for f in facts(b): st.assume(f)
        return b
    def pre(self, a, n, z): raise NotImplementedError
    def setup(self, ex):
        st, n, p, r, a = self.state(ex); z = u32(ex, st, "zindex"); st.assume(z.e < n)
        for f in self.pre(a, n, z.e): st.assume(f)
        yield Case("", st, [p, z], p=p, r=r, a=a, n=n, z=z.e)
    def want(self, c, a, b, n, m): return [("the heap order holds", mmh(b, m)), ("the same elements with the same multiplicity", z3.And(m == n, CNT(b, m) == CNT(a, n)))]
    def post(self, ex, c, st, ret):
        b, m = self.now(ex, st, c)
        for f in cnt_facts(b, m) + cnt_facts(c.a, c.n): st.assume(f)
        return self.want(c, c.a, b, c.n, m)
    def apply(self, ex, func, st, av, rt):
        a, n, c = self.site(ex, st, av); z = ze(ex.U(st, av[1])); ex.oblige(st, z3.And(0 <= z, z < n), "the index is inside the heap", "pre")
        for k, f in enumerate(self.pre(a, n, z)): ex.oblige(st, f, f"call of {self.title}: precondition {k}", "pre")
        for f in cnt_facts(a, n): st.assume(f)
        self.replace(ex, st, c, a, n, lambda b: [mmh(b, n), CNT(b, n) == CNT(a, n)]); return [(st, None)]
class Up_(MMOp):
    mx = True
    def pre(self, a, n, z):
        g = (z - 3) / 4; le = (lambda x, y: x <= y) if self.mx else (lambda x, y: x >= y)
        return [MIN(z) == z3.BoolVal(not self.mx), rel1(a, n), rel2(a, n, skip=lambda p, d: d != z),
                z3.Implies(z >= 3, forall([q1, q2], z3.Implies(z3.And(0 <= q1, grand(q1, z), child(z, q2), q2 < n), le(a[q2], a[q1])))),
                z3.Implies(z >= 3, forall([q1, q2], z3.Implies(z3.And(0 <= q1, grand(q1, z), grand(z, q2), q2 < n), le(a[q2], a[q1]))))]
class Down_(MMOp):
    mx = True
    def pre(self, a, n, z):
        ge = (lambda x, y: x >= y) if not self.mx else (lambda x, y: x <= y)
        return [MIN(z) == z3.BoolVal(not self.mx), rel1(a, n, skip=lambda p, c: p != z), rel2(a, n, skip=lambda g, d: g != z),
                forall([q1, q2], z3.Implies(z3.And(0 <= q1, grand(q1, z), z3.Or(child(z, q2), grand(z, q2)), q2 < n), ge(a[q2], a[q1]))),
                forall([q1, q2], z3.Implies(z3.And(0 <= q1, child(q1, z), z3.Or(child(z, q2), grand(z, q2)), q2 < n), z3.BoolVal(True)))]
    def gen(self, ex, c, L):
        z, n, a = c.z, c.n, c.a; le = (lambda x, y: x <= y) if not self.mx else (lambda x, y: x >= y)
        for s in L.vars:
            for i in L.vars:
                if s is i or s.kind != "int" or i.kind != "int": continue
                yield f"{s.name} among the nodes seen", lambda v, s=s, i=i: z3.And(v[s] < n, z3.Or(v[s] == z, child(z, v[s]), z3.And(4 * z + 3 <= v[s], v[s] < 4 * z + 3 + v[i])))
                yield f"{s.name} best of the nodes seen", lambda v, s=s, i=i: z3.And(le(a[v[s]], a[z]), forall([q1], z3.Implies(z3.And(q1 < n, z3.Or(child(z, q1), z3.And(4 * z + 3 <= q1, q1 < 4 * z + 3 + v[i]))), le(a[v[s]], a[q1]))))
                yield f"{i.name} at most 4", lambda v, s=s, i=i: z3.And(0 <= v[i], v[i] <= 4)
def selfuse(cls, nm, mx):
    o = type(cls.__name__, (cls,), {"name": f"void {MM}{nm}<{'true' if mx else 'false'}>(unsigned int)", "title": f"MinMaxHeap::{nm}<{'max' if mx else 'min'}>", "mx": mx})(); o.uses = (ML, o); return o
UPS = {m: selfuse(Up_, "trickleUp_", m) for m in (True, False)}; DOWNS = {m: selfuse(Down_, "trickleDown_", m) for m in (True, False)}
class Up(MMOp):
    """the last element is new, the others are in order"""
    name = MM + "trickleUp(unsigned int)"; title = "MinMaxHeap::trickleUp"; uses = (ML, UPS[True], UPS[False])
    def pre(self, a, n, z): return [z == n - 1, rel1(a, n, skip=lambda p, c: c != z), rel2(a, n, skip=lambda g, d: d != z)]
class Down(MMOp):
    """one of the first three elements is new, the others are in order"""
    name = MM + "trickleDown(unsigned int)"; title = "MinMaxHeap::trickleDown"; uses = (ML, DOWNS[True], DOWNS[False])
    def pre(self, a, n, z): return [z <= 2, rel1(a, n, skip=lambda p, c: p != z), rel2(a, n, skip=lambda g, d: g != z)]
UP, DOWN = Up(), Down()
def top(a, n): return forall([q1], z3.Implies(z3.And(0 <= q1, q1 < n), a[q1] <= a[0]))
def bottom(a, n, i): return forall([q1], z3.Implies(z3.And(0 <= q1, q1 < n), a[i] <= a[q1]))
def extremes():
    """in a min-max heap position 0 holds the largest and the smaller of positions 1, 2 the smallest: induction step over the position"""
    a = z3.Const("LA", int_arr()); n, k = z3.Ints("Ln Lk"); m = z3.If(a[1] < a[2], a[1], a[2]); p, g = (k - 1) / 2, (k - 3) / 4
    st = z3.And(z3.Or(k == 2 * p + 1, k == 2 * p + 2), 4 * g + 3 <= k, k <= 4 * g + 6, 0 <= g, g < p, p < k, z3.Or(p == 2 * g + 1, p == 2 * g + 2))
    return [("lemma: a position from 3 on has a parent and a grandparent", z3.Implies(k >= 3, st)),
            ("lemma: the largest is at 0, the smallest at 1 or 2 (induction step)", z3.Implies(z3.And(AX, 3 <= k, k < n, mmh(a, n), st, forall([q1], z3.Implies(z3.And(0 <= q1, q1 < k), z3.And(a[q1] <= a[0], z3.Implies(q1 >= 1, m <= a[q1]))))), z3.And(a[k] <= a[0], m <= a[k]))),
            ("lemma: induction start", z3.Implies(z3.And(AX, n >= 3, mmh(a, n)), z3.And(a[1] <= a[0], a[2] <= a[0], m <= a[1], m <= a[2], m <= a[0]))), ("lemma: two elements", z3.Implies(z3.And(AX, mmh(a, 2)), a[1] <= a[0]))]
class MinIndex(MMOp):
    name = MM + "findMinIndex() const"; title = "MinMaxHeap::findMinIndex"
    def setup(self, ex):
        st, n, p, r, a = self.state(ex); st.assume(n > 0); st.assume(mmh(a, n)); yield Case("", st, [p], p=p, r=r, a=a, n=n)
    def ok(self, a, n, i): return z3.If(n == 1, i == 0, z3.If(n == 2, i == 1, z3.And(z3.Or(i == 1, i == 2), a[i] <= a[1], a[i] <= a[2])))
    def post(self, ex, c, st, ret): return [("the smaller of the two elements under the root", self.ok(c.a, c.n, ze(ex.U(st, ret))))] + extremes()
    def apply(self, ex, func, st, av, rt):
        a, n, c = self.site(ex, st, av); ex.oblige(st, n > 0, "the heap is not empty", "pre"); i = fresh("minindex"); st.assume(z3.And(0 <= i, i <= 2, i < n, self.ok(a, n, i))); return [(st, IV(32, i, 0, 2))]
MI = MinIndex()
class Delete(MMOp):
    name = MM + "deleteElement(unsigned int)"; title = "MinMaxHeap::deleteElement"; uses = (DOWN,)
    def pre(self, a, n, z): return [z <= 2, mmh(a, n)]
    def setup(self, ex):
        for c in MMOp.setup(self, ex): c.st.assume(top(c.a, c.n)); yield c       # follows from the heap order: the lemmas with findMinIndex
    def want(self, c, a, b, n, m): return [("the heap order holds", mmh(b, m)), ("exactly that element is removed", z3.And(m == n - 1, CNT(b, m) == CNT(a, n) - z3.If(a[c.z] == V0, 1, 0)))]
    def apply(self, ex, func, st, av, rt):
        a, n, c = self.site(ex, st, av); z = ze(ex.U(st, av[1])); ex.oblige(st, z3.And(0 <= z, z < n, z <= 2), "the index is that of an extreme element", "pre"); ex.oblige(st, mmh(a, n), "the heap order holds before a removal", "pre")
        st.mem[(c.p.r.id, 8)] = Ptr(c.r, Lin.of(fold(z3.simplify(n - 1))).scale(4))
        self.replace(ex, st, c, a, n, lambda b: [mmh(b, n - 1), CNT(b, n - 1) == CNT(a, n) - z3.If(a[z] == V0, 1, 0)]); return [(st, None)]
DEL = Delete()
class Push(MMOp):
    uses = (UP,)
    def setup(self, ex):
        st, n, p, r, a = self.state(ex); st.assume(mmh(a, n)); o = Region("zvalue", "obj"); o.pre = True; x = i32(ex, st, "value"); o.init[0] = x; o.slotw[0] = 4; o.signed.add(0); yield Case("", st, [p, Ptr(o)], p=p, r=r, a=a, n=n, x=x.e)
    def want(self, c, a, b, n, m): return [("the heap order holds", mmh(b, m)), ("exactly the new element is added", z3.And(m == n + 1, CNT(b, m) == CNT(a, n) + z3.If(c.x == V0, 1, 0)))]
class Pop(MMOp):
    uses = (MI, DEL); low = True
    def setup(self, ex):
        st, n, p, r, a = self.state(ex); st.assume(n > 0); st.assume(mmh(a, n)); yield Case("", st, [p], p=p, r=r, a=a, n=n)
    def want2(self, c, a, n, x): return [("the value is that of an extreme position (extreme by the lemmas)", z3.Or(z3.And(n == 1, x == a[0]), z3.And(n == 2, x == a[1]), z3.And(n >= 3, x == z3.If(a[1] < a[2], a[1], a[2]))) if self.low else x == a[0])]
    def post(self, ex, c, st, ret):
        b, m = self.now(ex, st, c); x = ze(ex.S(st, ret))
        for f in cnt_facts(b, m) + cnt_facts(c.a, c.n): st.assume(f)
        return self.want2(c, c.a, c.n, x) + [("the heap order holds", mmh(b, m)), ("exactly the value given out is removed", z3.And(m == c.n - 1, CNT(b, m) == CNT(c.a, c.n) - z3.If(x == V0, 1, 0)))]
class Find(Pop):
    uses = (MI,)
    def post(self, ex, c, st, ret):
        b, m = self.now(ex, st, c); q = ret.off.divmod(4)
        return self.want2(c, c.a, c.n, c.a[ze(q[0])]) + [("a reference to an element, nothing changed", z3.And(z3.BoolVal(ret.r is c.r), 0 <= ze(q[0]), ze(q[0]) < c.n, b == c.a, m == c.n))]
def mm(cls, nm, **k): return type(cls.__name__, (cls,), dict({"name": MM + nm, "title": "MinMaxHeap::" + nm}, **k))()
class Size(MMOp):
    def setup(self, ex): st, n, p, r, a = self.state(ex); yield Case("", st, [p], p=p, r=r, a=a, n=n)
    def post(self, ex, c, st, ret): return [("how many elements there are", ze(ret) == (c.n == 0) if self.title.endswith("empty() const") else ze(ex.U(st, ret)) == c.n)]
MMS = [LVL, ML, UPS[True], UPS[False], DOWNS[True], DOWNS[False], UP, DOWN, MI, DEL, mm(Push, "push(int const&)"), mm(Push, "push(int&&)"), mm(Pop, "popMin()"), mm(Pop, "popMax()", low=False), mm(Find, "findMin() const"), mm(Find, "findMax() const", low=False), mm(Size, "size() const"), mm(Size, "empty() const")]

FUNCS = [GR, Insert(), RemoveTop(), Modify(), qy("SIHeap::getTop() const", "top"), qy("SIHeap::getLen() const", "len"), qy("SIHeap::isEmpty() const", "empty")] + MMS
HARNESS = {"src": "C14.cpp", "tus": ["Util/Util.cpp", "Util/Bstr.cpp"] + ["KVstore/SITree/" + x for x in ("heap/SIHeap.cpp", "node/SINode.cpp", "node/SIIntlNode.cpp", "node/SILeafNode.cpp")], "secs": 20}
ASSUMPTIONS = ["the min-max heap is proved for the instantiation with int and std::less (the template text is the repository's; FqElement and element instances go through the harness)",
               "counting laws: exchanging two elements keeps the number of occurrences of every value, appending adds one, elements behind the end do not count", "the induction steps of 'the first element is extreme' are proved as lemmas; the principle of strong induction is the meta-argument",
               "realloc and malloc do not fail; at most 2^29 elements", "between heap operations only the node whose rank change is announced by modify changed its rank"]
BOUNDED = ["histories of calls (the contracts compose, each operation keeps the heap order it assumes): also run by the harness for node heaps and three element types"]
