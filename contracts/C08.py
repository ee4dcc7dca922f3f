"""C08: byte order of strings (Util::compare, Bstr), search in a sorted array of keys and the shifting operations of a tree node."""
import re, os
from spec import *
from models import MESSAGES
from vals import *

ID = "C08"
INST = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/inst/C08.cpp"
TUS = ["Util/Util.cpp", "Util/Bstr.cpp", "KVstore/SITree/node/SINode.cpp", "KVstore/SITree/node/SILeafNode.cpp", "KVstore/SITree/node/SIIntlNode.cpp", INST]
NMAX = 1 << 40
_off = {}
def off(ex, nm):
    if nm not in _off:
        g = next(m.globals[x] for m in ex.mods for x in m.globals if x.lstrip("@").strip('"') == "gvc_" + nm)
        for v in (g if isinstance(g, (list, tuple)) else [g]):
            m = re.search(r"constant i64 (\d+)", str(v))
            if m: _off[nm] = int(m.group(1))
    return _off[nm]

# ---------------------------------------------------------------- byte order
def agree(A, B, k): return forall([q1], z3.Implies(z3.And(0 <= q1, q1 < k), A[q1] == B[q1]))
def at(A, n, B, m, k): return z3.And(k >= 0, agree(A, B, k), z3.Or(z3.And(k == n, k < m), z3.And(k < n, k < m, A[k] < B[k])))
def lessq(A, n, B, m): return z3.Exists([q2], at(A, n, B, m, q2))
def same_str(A, n, B, m): return z3.And(n == m, agree(A, B, n))
class Compare(Contract):
    name = "Util::compare(char const*, unsigned long, char const*, unsigned long)"; title = "Util::compare"; opt = {"inst": True}
    def setup(self, ex):
        st = State(); n, m = u64(ex, st, "len1", NMAX), u64(ex, st, "len2", NMAX); p, q = array(ex, st, "str1", n.e, 1), array(ex, st, "str2", m.e, 1)
        A, B = arr0(ex, st, p), arr0(ex, st, q); st.assume(ranged(A, n.e, 8)); st.assume(ranged(B, m.e, 8))
        yield Case("", st, [p, n, q, m], A=A, B=B, n=n.e, m=m.e)
    def gen(self, ex, c, L):
        for x in L.vars:
            if x.kind == "int": yield "equal before " + x.name, lambda v, x=x: agree(c.A, c.B, v[x])
    def post(self, ex, c, st, ret):
        r = ze(ex.S(st, ret)); A, B, n, m = c.A, c.B, c.n, c.m
        # schematic: position k0 is arbitrary
        return [("the answer is -1, 0 or 1", z3.And(r >= -1, r <= 1)), ("0 only for equal strings", z3.Implies(r == 0, same_str(A, n, B, m))),
                ("-1 only when the first string is smaller", z3.Implies(r == -1, lessq(A, n, B, m))), ("1 only when the first string is greater", z3.Implies(r == 1, lessq(B, m, A, n)))] + lemmas()
    def apply(self, ex, func, st, av, rt):
        r = fresh("cmp"); a, b = rank(ex, st, av[0], av[1]), rank(ex, st, av[2], av[3])
        st.assume(z3.And(r >= -1, r <= 1, (r == 0) == (a == b), (r < 0) == (a < b), (r > 0) == (a > b)))
        return [(st, IV(32, r, -1, 1))]
_L = []
def lemmas():
    """what compare answers is one total order: irreflexive, exclusive, transitive (with witnesses, over arbitrary byte arrays and lengths)"""
    if _L: return []
    _L.append(1)
    A, B, C = [z3.Const(x, int_arr()) for x in ("LA", "LB", "LC")]; n, m, l, k, j = z3.Ints("Ln Lm Ll Lk Lj"); nn = z3.And(n >= 0, m >= 0, l >= 0)
    return [("lemma: no string is smaller than itself", z3.Implies(nn, z3.Not(at(A, n, A, n, k)))), ("lemma: smaller excludes equal", z3.Implies(z3.And(nn, at(A, n, B, m, k)), z3.Not(same_str(A, n, B, m)))),
            ("lemma: smaller excludes greater", z3.Implies(z3.And(nn, at(A, n, B, m, k), k < j), z3.Not(at(B, m, A, n, j)))), ("lemma: smaller excludes greater (2)", z3.Implies(z3.And(nn, at(A, n, B, m, k), j <= k), z3.Not(at(B, m, A, n, j)))),
            ("lemma: transitive", z3.Implies(z3.And(nn, at(A, n, B, m, k), at(B, m, C, l, j)), at(A, n, C, l, z3.If(k < j, k, j)))),
            ("lemma: a proper prefix comes first", z3.Implies(z3.And(nn, n < m, agree(A, B, n)), lessq(A, n, B, m)))]
CMP = Compare()
# every state holds finitely many strings, so the total order proved above embeds in the integers: rank is that embedding
RK = z3.Function("rank", z3.IntSort(), z3.IntSort(), z3.IntSort())
def rank(ex, st, p, n):
    if not isinstance(p, Ptr): raise Unsupported("string pointer")
    k = z3.IntVal(0) if p.r is None else p.key
    if p.r is not None and (p.r.kind != "fam" or not p.off.isconst() or p.off.c != 0): raise Unsupported("comparison of the inside of a string")
    return RK(ze(k), ze(ex.U(st, n)))
def chars(): r = Region("bytes", "fam"); r.pre = True; return r
def bstr(ex, st, nm, fam):
    o = Region(nm, "obj"); o.pre = True; k = fresh(nm + ".str"); st.assume(k > 0); n = u64(ex, st, nm + ".len", NMAX)
    o.init[0] = Ptr(fam, Lin(0), k); o.init[8] = n; o.slotw[0] = o.slotw[8] = 8
    return Ptr(o), RK(k, n.e)
class Op(Contract):
    uses = (CMP,); rel = None
    def setup(self, ex):
        st = State(); f = chars(); p, a = bstr(ex, st, "left", f); q, b = bstr(ex, st, "right", f)
        yield Case("", st, [p, q], a=a, b=b)
    def post(self, ex, c, st, ret): return [("the operator says what the byte order says", ze(ret) == type(self).rel(c.a, c.b))]
    def apply(self, ex, func, st, av, rt):
        g = []
        for p in av:
            s = ex.load(st, func, Ty("ptr"), Ptr(p.r, p.off, p.key)); n = ex.load(st, func, Ty("i", 64), Ptr(p.r, p.off.add(Lin(8)), p.key)); g.append(rank(ex, st, s, n))
        return [(st, type(self).rel(*g))]
def mk(op, f): return type("Op", (Op,), {"name": f"Bstr::operator{op}(Bstr const&)", "title": f"Bstr::operator{op}", "rel": staticmethod(f)})()
OPS = [mk(">", lambda a, b: a > b), mk("<", lambda a, b: a < b), mk("==", lambda a, b: a == b), mk("<=", lambda a, b: a <= b), mk(">=", lambda a, b: a >= b), mk("!=", lambda a, b: a != b)]

# ---------------------------------------------------------------- node: a sorted array of keys
def vtable(ex, cls):
    m = next((m for m in ex.mods if "_ZTV" + cls in m.globals), None)
    if m is None: raise Unsupported("virtual table of " + cls)
    g = ex.global_ptr(type("F", (), {"mod": m})(), "_ZTV" + cls)
    if 16 not in g.r.init: raise Unsupported("virtual table of " + cls)
    return Ptr(g.r, Lin(16))
class Node:
    def __init__(self, ex, st, leaf=True):
        self.fam = chars(); o = self.o = Region("node", "obj"); o.pre = True; F = self.F = off(ex, "off_flag")
        K = self.n = fresh("keynum"); lo, hi = fresh("flaglow"), fresh("flaghigh"); mx = off(ex, "max_keys")
        st.assume(z3.And(K >= 0, K <= mx, lo >= 0, lo < 1 << 12, hi >= 0, hi < 1 << 13))
        self.flag0 = hi * (1 << 19) + K * (1 << 12) + lo
        o.init[F] = IV(32, self.flag0, 0, (1 << 32) - 1); o.slotw[F] = 4
        o.init[0] = vtable(ex, "10SILeafNode" if leaf else "10SIIntlNode"); o.slotw[0] = 8
        kp = array(ex, st, "keys", mx, 16); r = self.r = kp.r; r.slotw.clear(); r.init.clear()
        r.slotw[0] = r.slotw[8] = 8; r.ptrfam[0] = self.fam; r.ranges = {}
        self.k0, self.l0 = ex.arr_of(st, r, 0), ex.arr_of(st, r, 8)
        o.init[off(ex, "off_keys")] = kp; o.slotw[off(ex, "off_keys")] = 8
        st.assume(z3.ForAll([q1], z3.And(self.k0[q1] >= 0, self.l0[q1] >= 0, self.l0[q1] < NMAX)))
        if leaf:
            vp = array(ex, st, "values", mx, 4); self.vr = vp.r; self.v0 = ex.arr_of(st, vp.r, 0); o.init[off(ex, "off_values")] = vp; o.slotw[off(ex, "off_values")] = 8
            st.assume(ranged(self.v0, mx))
        else:
            self.kids = Region("childs", "arr", stride=8, nbytes=Lin.of(off(ex, "max_childs") + 1).scale(8)); self.kids.pre = True; self.kids.slotw[0] = 8; self.kids.ptrfam[0] = Region("nodes", "fam"); a = off(ex, "off_childs")
            self.c0 = ex.arr_of(st, self.kids, 0); o.embedded = [(a, a + 8 * (off(ex, "max_childs") + 1), self.kids)]; st.assume(z3.ForAll([q1], self.c0[q1] >= 0))
    def rk(self, i): return RK(self.k0[i], self.l0[i])
def sorted_keys(N): return z3.ForAll([q1, q2], z3.Implies(z3.And(0 <= q1, q1 < q2, q2 < N.n), N.rk(q1) < N.rk(q2)))

class Less(Contract):
    uses = (CMP, OPS[0]); kind = "less"; bs = False; budget = 60; opt = {"inst": True}
    def setup(self, ex):
        st = State(); N = Node(ex, st); st.assume(sorted_keys(N))
        if self.bs: p, r = bstr(ex, st, "key", N.fam); args = [Ptr(N.o), p]
        else: k = fresh("str"); st.assume(k > 0); n = u32(ex, st, "len"); args = [Ptr(N.o), Ptr(N.fam, Lin(0), k), n]; r = RK(k, n.e)
        yield Case("", st, args, N=N, r=r)
    def gen(self, ex, c, L):
        N, r = c.N, c.r
        for x in L.vars:
            if x.kind != "int": continue
            for d in (0, 1):
                yield f"keys below {x.name}+{d} are not greater", lambda v, x=x, d=d: forall([q1], z3.Implies(z3.And(0 <= q1, q1 < ze(v[x]) + d, q1 < N.n), N.rk(q1) <= r))
                yield f"keys above {x.name}-{d} are greater", lambda v, x=x, d=d: forall([q1], z3.Implies(z3.And(ze(v[x]) - d < q1, 0 <= q1, q1 < N.n), N.rk(q1) > r))
            yield f"{x.name} range", lambda v, x=x: z3.And(v[x] >= 0, v[x] <= N.n)
            yield f"{x.name} range2", lambda v, x=x: z3.And(v[x] >= -1, v[x] <= N.n)
            for y in L.vars:
                if y.kind == "int" and y is not x: yield f"{x.name}<={y.name}+1", lambda v, x=x, y=y: v[x] <= v[y] + 1; yield f"{x.name}=0 or <= {y.name}", lambda v, x=x, y=y: z3.Or(z3.And(v[x] == 0, N.n == 0), v[x] <= v[y], v[x] == N.n)
    def spec(self, N, r, x):
        up = z3.And(0 <= x, x <= N.n, forall([q1], z3.Implies(z3.And(0 <= q1, q1 < x), N.rk(q1) <= r)), forall([q1], z3.Implies(z3.And(x <= q1, q1 < N.n), N.rk(q1) > r)))
        if self.kind == "less": return [("every key before the position is not greater, every key from it on is greater", up)]
        hit = z3.And(0 <= x, x < N.n, N.rk(x) == r); miss = forall([q1], z3.Implies(z3.And(0 <= q1, q1 < N.n), N.rk(q1) != r))
        if self.kind == "equal": return [("the position of the key, or the number of keys exactly when it does not occur", z3.And(z3.Implies(x != N.n, hit), z3.Implies(x == N.n, miss)))]
        return [("the position of the key, or where it would be inserted", z3.Or(hit, z3.And(miss, up)))]
    def post(self, ex, c, st, ret): return self.spec(c.N, c.r, ze(ex.S(st, ret)))
    def apply(self, ex, func, st, av, rt):
        N = ex.case.N
        if av[0].r is not N.o: raise Unsupported("search in another node")
        if self.bs:
            p = av[1]; s = ex.load(st, func, Ty("ptr"), p); n = ex.load(st, func, Ty("i", 64), Ptr(p.r, p.off.add(Lin(8)))); r = rank(ex, st, s, n)
        else: r = rank(ex, st, av[1], av[2])
        x = fresh("pos"); st.assume(z3.And(x >= 0, x <= N.n))
        for nm, f in self.spec(N, r, x): st.assume(f)
        return [(st, IV(32, x, 0, off(ex, "max_keys")))]
SIG = {True: "(Bstr const&) const", False: "(char const*, unsigned int) const"}
def lk(kind, bs): 
    less = () if kind == "less" else (LESS[bs],)
    return type("Less", (Less,), {"name": f"SINode::searchKey_{kind}{SIG[bs]}", "title": f"SINode::searchKey_{kind} ({'Bstr' if bs else 'str'})", "kind": kind, "bs": bs, "uses": (CMP, OPS[0], OPS[2]) + less})()
LESS = {}
for b in (True, False): LESS[b] = lk("less", b)
SEARCH = list(LESS.values()) + [lk(k, b) for k in ("equal", "lessEqual") for b in (True, False)]

# ---------------------------------------------------------------- node: shifting operations
def shape(N, ex, st):
    """(key pointers, key lengths, values or children) at state st"""
    r = N.r; out = [ex.arr_of(st, r, 0), ex.arr_of(st, r, 8)]
    return out
def flag(N, ex, st): return ze(ex.U(st, st.mem.get((N.o.id, N.F)) or N.o.init[N.F]))
def fl(N, n): return N.flag0 + (n - N.n) * (1 << 12)
class NodeOp(Contract):
    """op on slot arrays: lists of (array at entry, array now) shifted together"""
    budget = 60; opt = {"inst": True}; models = MESSAGES; leaf = True; what = "keys"; kind = "add"; full_ok = False; uses = ()
    def setup(self, ex):
        for label, ok in (("legal index", True), ("illegal index", False)):
            st = State(); N = Node(ex, st, self.leaf); i = i32(ex, st, "index"); top = N.n if self.kind == "add" else N.n - 1
            if self.what == "childs": top = top + 1
            if self.what == "keys" and self.kind == "add": st.assume(N.n < off(ex, "max_keys"))
            if self.what == "values" and self.kind == "add": st.assume(N.n < off(ex, "max_keys"))
            rng = z3.And(i.e >= 0, i.e <= top); st.assume(rng if ok else z3.Not(rng))
            args, new = self.args(ex, st, N, i)
            yield Case(label, st, args, N=N, i=i.e, ok=ok, new=new, top=top, old=self.slots(ex, st, N))
    def slots(self, ex, st, N):
        if self.what == "keys": return [ex.arr_of(st, N.r, 0), ex.arr_of(st, N.r, 8)]
        return [ex.arr_of(st, N.vr if self.what == "values" else N.kids, 0)]
    def want(self, c, old, new):
        """element q1 afterwards, for q1 below the new number of elements"""
        k = c.top + 1 if self.kind == "add" else c.top
        if self.kind == "add": return k, z3.If(q1 < c.i, old[q1], z3.If(q1 == c.i, ze(new), old[q1 - 1]))
        if self.kind == "sub": return k, z3.If(q1 < c.i, old[q1], old[q1 + 1])
        return k + 1, z3.If(q1 == c.i, ze(new), old[q1])
    def gen(self, ex, c, L):
        for x in L.vars:
            if x.kind != "int": continue
            def f(d, x=x):
                def g(v):
                    now = self.slots(ex, v.st, c.N); out = []
                    for o, a in zip(c.old, now):
                        if self.kind == "add": out.append(forall([q1], z3.Implies(z3.And(q1 >= 0, q1 <= c.top), a[q1] == z3.If(q1 > v[x] + d, o[q1 - 1], o[q1]))))
                        else: out.append(forall([q1], z3.Implies(z3.And(q1 >= 0, q1 <= c.top), a[q1] == z3.If(z3.And(q1 >= c.i, q1 < v[x] + d), o[q1 + 1], o[q1]))))
                    return z3.And(out)
                return g
            yield f"{x.name} stops", lambda v, x=x: z3.And(v[x] >= c.i - 1, v[x] <= c.top)
            for d in (0, 1): yield f"shifted {x.name} {d}", f(d)
    def others(self, ex, c, st):
        N = c.N; g = [z3.BoolVal(True)]
        if self.what != "keys": g += [ex.arr_of(st, N.r, 0) == N.k0, ex.arr_of(st, N.r, 8) == N.l0]
        if self.what != "values" and self.leaf: g.append(ex.arr_of(st, N.vr, 0) == N.v0)
        if self.what != "childs" and not self.leaf: g.append(ex.arr_of(st, N.kids, 0) == N.c0)
        return z3.And(g + [flag(N, ex, st) == N.flag0])
    def post(self, ex, c, st, ret):
        now = self.slots(ex, st, c.N); out = [("the answer says whether the index is legal", ze(ret) == z3.BoolVal(c.ok)), ("everything else is kept", self.others(ex, c, st))]
        for j, (o, a) in enumerate(zip(c.old, now)):
            if not c.ok: out.append(("a refused call changes nothing", forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < c.N.n), a[q1] == o[q1])))); continue
            k, w = self.want(c, o, c.new[j]); out.append((f"the elements afterwards ({j})", forall([q1], z3.Implies(z3.And(q1 >= 0, q1 < k), a[q1] == w))))
        return out
def nop(cls, nm, sig, what, kind, args, leaf=True):
    return type("NodeOp", (NodeOp,), {"name": f"{cls}::{nm}{sig}", "title": f"{cls}::{nm}{sig}", "what": what, "kind": kind, "args": args, "leaf": leaf})()
def a_str(self, ex, st, N, i):
    k = fresh("str"); st.assume(k > 0); n = u32(ex, st, "len"); return [Ptr(N.o), Ptr(N.fam, Lin(0), k), n, i, fresh("ifcopy", z3.BoolSort())], (k, n.e)
def a_bstr(self, ex, st, N, i):
    p, _ = bstr(ex, st, "newkey", N.fam); return [Ptr(N.o), p, i, False], (p.r.init[0].key, p.r.init[8].e)
def a_idx(self, ex, st, N, i): return [Ptr(N.o), i], (None, None)
def a_idxdel(self, ex, st, N, i): return [Ptr(N.o), i, False], (None, None)
def a_val(self, ex, st, N, i): v = u32(ex, st, "val"); return [Ptr(N.o), v, i], (v.e,)
def a_kid(self, ex, st, N, i): k = fresh("child"); st.assume(k > 0); return [Ptr(N.o), Ptr(N.kids.ptrfam[0], Lin(0), k), i], (k,)
SHIFT = [nop("SINode", "addKey", "(char*, unsigned int, int, bool)", "keys", "add", a_str), nop("SINode", "addKey", "(Bstr const*, int, bool)", "keys", "add", a_bstr), nop("SINode", "subKey", "(int, bool)", "keys", "sub", a_idxdel), nop("SINode", "SetKey", "(Bstr const*, int, bool)", "keys", "set", a_bstr),
         nop("SILeafNode", "AddValue", "(unsigned int, int)", "values", "add", a_val), nop("SILeafNode", "SubValue", "(int)", "values", "sub", a_idx), nop("SILeafNode", "SetValue", "(unsigned int, int)", "values", "set", a_val),
         nop("SIIntlNode", "AddChild", "(SINode*, int)", "childs", "add", a_kid, False), nop("SIIntlNode", "subChild", "(int)", "childs", "sub", a_idx, False), nop("SIIntlNode", "setChild", "(SINode*, int)", "childs", "set", a_kid, False)]
class Get(Contract):
    what = "keys"; leaf = True
    def setup(self, ex):
        st = State(); N = Node(ex, st, self.leaf); i = i32(ex, st, "index"); yield Case("", st, [Ptr(N.o), i], N=N, i=i.e)
    def post(self, ex, c, st, ret):
        N = c.N
        if self.what == "values": return [("the value at the index, 0 outside", ze(ex.U(st, ret)) == z3.If(z3.And(c.i >= 0, c.i < N.n), N.v0[c.i], 0))]
        if ret.r is None: return [("a miss only outside", z3.Not(z3.And(c.i >= 0, c.i < (N.n if self.what == "keys" else N.n + 1))))]
        if self.what == "keys": q = ret.off.divmod(16); return [("the key at the index", z3.And(c.i >= 0, c.i < N.n, z3.BoolVal(ret.r is N.r and q is not None and q[1] == 0), ze(q[0]) == c.i))]
        return [("the child at the index", z3.And(c.i >= 0, c.i <= N.n, ze(ret.key) == N.c0[c.i]))]
def get(nm, what, leaf=True): return type("Get", (Get,), {"name": nm, "title": nm, "what": what, "leaf": leaf})()
GETS = [get("SINode::getKey(int) const", "keys"), get("SILeafNode::GetValue(int) const", "values"), get("SIIntlNode::GetChild(int) const", "childs", False)]
class Count(Contract):
    f = None; arg = False; models = MESSAGES
    def setup(self, ex):
        st = State(); N = Node(ex, st); a = [Ptr(N.o)]; k = None
        if self.arg: v = i32(ex, st, "num"); a.append(v); k = v.e
        yield Case("", st, a, N=N, k=k)
    def post(self, ex, c, st, ret):
        N = c.N; mx = off(ex, "max_keys"); now = flag(N, ex, st)
        if self.f == "get": return [("the number of keys", z3.And(ze(ex.U(st, ret)) == N.n, now == N.flag0))]
        n2 = {"add": N.n + 1, "sub": N.n - 1, "set": c.k}[self.f]; ok = z3.And(n2 >= 0, n2 <= mx)
        return [("accepted exactly when the count stays legal", ze(ret) == ok), ("the count afterwards, all other flags kept", now == z3.If(ok, fl(N, n2), N.flag0))]
def cnt(nm, f, arg=False): return type("Count", (Count,), {"name": nm, "title": nm, "f": f, "arg": arg})()
COUNT = [cnt("SINode::GetKeyNum() const", "get"), cnt("SINode::AddKeyNum()", "add"), cnt("SINode::SubKeyNum()", "sub"), cnt("SINode::SetKeyNum(int)", "set", True)]

FUNCS = [CMP] + OPS + SEARCH + SHIFT + GETS + COUNT
HARNESS = {"src": "C08.cpp", "tus": ["Util/Util.cpp","Util/Bstr.cpp"] + ["KVstore/SITree/"+x for x in ("SITree.cpp","heap/SIHeap.cpp","node/SINode.cpp","node/SIIntlNode.cpp","node/SILeafNode.cpp","storage/SIStorage.cpp")], "secs": 20}
ASSUMPTIONS = ["any finite set of strings under the proved total order embeds in the integers: contracts of the callers of Util::compare speak about that rank", "every node holds strings at separate addresses; key texts are not modified while in a node",
               "std::string error messages have no effect"]
BOUNDED = ["node split and merge, tree search, insertion, removal, saving, opening and eviction (SITree, SIStorage, Split/Coalesce): harness only"]
