"""C02: the three triple indexes: what an update writes and what a lookup answers, for lists of every length."""
import re, os
from spec import *
from ir import Ty
from C08 import off

ID = "C02"
INST = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/inst/C02.cpp"
TUS = ["KVstore/KVstore.cpp", "Util/Util.cpp", INST]
INVALID = (1 << 32) - 1
LIT = 2000000000
NMAX = 1 << 29
A_ = lambda vs, b: forall(vs, b)

# ---------------------------------------------------------------- search
# lists of pairs (predicate, offset) are spoken about by index x of the block: every second place from b on
def every(x, b, s):
    if s != 2: return z3.BoolVal(True)
    b = fold(z3.simplify(ze(b))); return x % 2 == b % 2 if isc(b) else (x - b) % 2 == 0
def each(lo, hi, f, b=0, s=1): return forall([q1], z3.Implies(z3.And(ze(lo) <= q1, q1 < ze(hi), every(q1, b, s)), f(q1)))
def rising(A, lo, hi, b=0, s=1): return forall([q1, q2], z3.Implies(z3.And(ze(lo) <= q1, q1 < q2, q2 < ze(hi), every(q1, b, s), every(q2, b, s)), A[q1] < A[q2]))
def found_at(r, A, b, s, n, p): return z3.If(r == INVALID, each(b, b + s * n, lambda x: A[x] != p, b, s), z3.And(0 <= r, r < n, A[b + s * r] == p))
class BSearch(Contract):
    name = "KVstore::binarySearch(unsigned int, unsigned int const*, unsigned int, int)"; title = "KVstore::binarySearch"
    def setup(self, ex):
        for s in (1, 2):
            st = State(); key = u32(ex, st, "key"); n = u32(ex, st, "n"); st.assume(z3.And(n.e >= 1, n.e < NMAX)); p = array(ex, st, "list", n.e * s); A = arr0(ex, st, p)
            st.assume(rising(A, 0, s * n.e, 0, s)); st.assume(ranged(A, n.e * s)); yield Case(f"step {s}", st, [key, p, n, ex.const(32, s)], A=A, s=s, n=n.e, key=key.e, span=(-1, 8), small=[(n.e, 0, 4)])
    def gen(self, ex, c, L):
        A, s = c.A, c.s
        for x in L.vars:
            if x.kind != "int": continue
            for d in (0, 1):
                yield f"below {x.name}+{d}", lambda v, x=x, d=d: forall([q1], z3.Implies(z3.And(0 <= q1, q1 < s * (ze(v[x]) + d), q1 < s * c.n, every(q1, 0, s)), A[q1] < c.key))
                yield f"above {x.name}-{d}", lambda v, x=x, d=d: forall([q1], z3.Implies(z3.And(s * (ze(v[x]) - d) < q1, 0 <= q1, q1 < s * c.n, every(q1, 0, s)), A[q1] > c.key))
            yield f"{x.name} range", lambda v, x=x: z3.And(v[x] >= -1, v[x] <= c.n)
            yield f"{x.name} range 2", lambda v, x=x: z3.And(v[x] >= 0, v[x] <= c.n)
            yield f"{x.name} range 3", lambda v, x=x: z3.And(v[x] >= -1, v[x] < c.n)
    def post(self, ex, c, st, ret):
        r = ze(ex.U(st, ret)); return [("the position of the key, or none exactly when it does not occur", found_at(r, c.A, 0, c.s, c.n, c.key))]
    def apply(self, ex, func, st, av, rt):
        key, p, n, s = ze(ex.U(st, av[0])), av[1], ze(ex.U(st, av[2])), ex.S(st, av[3])
        if not isc(s) or s not in (1, 2): raise Unsupported("search with another step")
        if p.r is None: raise Unsupported("search at null")
        b, o = p.off.divmod(4); A = ex.arr_of(st, p.r, 0); b = ze(b)
        if o: raise Unsupported("search in a strange place")
        ex.oblige(st, z3.And(n >= 1, n < NMAX), "the list searched is not empty", "pre"); m = p.r.nbytes.divmod(4); ex.oblige(st, z3.And(b >= 0, b + s * (n - 1) < ze(m[0])), "the list searched lies inside its block", "pre")
        ex.oblige(st, rising(A, b, b + s * n, b, s), "the list searched is ascending", "pre")
        r = fresh("pos"); st.assume(z3.And(r >= 0, r <= INVALID)); st.assume(found_at(r, A, b, s, n, key)); hit = getattr(ex.case, 'hit', None)
        if hit is not None: ex.oblige(st, r == hit, 'the search meets the place of the predicate', 'pre')
        return [(st, IV(32, r, 0, INVALID))]
BS = BSearch()

# ---------------------------------------------------------------- the store behind the indexes
class World:
    def __init__(self, ex, st):
        self.o = Region("kvstore", "obj"); self.o.pre = True; self.arr = {}
        for k in ("sub", "obj", "lit", "pre"):
            r = Region(k + "ID2values", "obj"); r.pre = True; self.arr[k] = r; x = off(ex, "off_" + k); self.o.init[x] = Ptr(r); self.o.slotw[x] = 8
class Dispatch(Contract):
    """which array, and at which place in it, a key of an index belongs"""
    op = ""; nargs = 0
    def setup(self, ex):
        for k in ("sub", "obj", "pre"):
            st = State(); W = World(ex, st); key = u32(ex, st, "key"); a = [Ptr(W.o), Ptr(W.arr[k]), key]; v = l = None
            if self.op == "search": v, l = [Ptr(Region(x, "obj")) for x in ("val", "len")]; a += [v, l]
            elif self.op != "remove": v, l = Ptr(Region("data", "arr", stride=1)), u64(ex, st, "len"); a += [v, l]
            c = Case(k, st, a, W=W, k=k, key=key.e, v=v, l=l); c.calls = []
            yield c
    @property
    def models(self):
        def m(ex, func, st, dn, av, rt):
            st.mem[("ghost", "call")] = (dn.split("(")[0], av); r = fresh("answer", z3.BoolSort()); st.mem[("ghost", "ret")] = r; return [(st, r)]
        return [(re.compile(r"^IVArray::(search|insert|modify|remove)\("), m)]
    def post(self, ex, c, st, ret):
        g = st.mem.get(("ghost", "call"))
        if g is None: return [("the array is asked", z3.BoolVal(False))]
        nm, av = g; k = ze(ex.U(st, av[1])); lit = c.key >= LIT; r = av[0].r; same = lambda a, b: a.r is b.r if isinstance(a, Ptr) else a is b
        which = z3.BoolVal(r is c.W.arr[c.k]) if c.k != "obj" else z3.If(lit, z3.BoolVal(r is c.W.arr["lit"]), z3.BoolVal(r is c.W.arr["obj"]))
        return [("the operation is the one asked for", z3.BoolVal(nm == "IVArray::" + self.op)), ("the array of the index; literals of the object index have their own", which), ("the place: a literal counts from the first literal", k == z3.If(z3.And(c.k == "obj", lit), c.key - LIT, c.key)),
                ("the data given, and the answer, are handed through", z3.And(z3.BoolVal(c.v is None or (av[2].r is c.v.r)), z3.BoolVal(True) if c.v is None or self.op == "search" and av[3].r is c.l.r else ze(ex.U(st, av[3])) == c.l.e if self.op != "search" else z3.BoolVal(False), ze(ret) == st.mem[("ghost", "ret")]))]
    def apply(self, ex, func, st, av, rt):
        c = ex.case; ex.oblige(st, z3.BoolVal(av[1].r is c.W.arr[c.k]), "the index used is the one this function serves", "pre"); ex.oblige(st, ze(ex.U(st, av[2])) == c.key, "the list used is the one of the given identifier", "pre")
        if self.op == "search":
            if ("ghost", "set") in st.mem: raise Unsupported("reads after the update")
            if c.V is not None: ex.store(st, func, Ty("ptr"), c.V, av[3]); ex.store(st, func, Ty("i", 64), IV(64, c.L * 4, 0, NMAX * 16, Lin.of(c.L).scale(4)), av[4])
            return [(st, c.V is not None)]
        ex.oblige(st, z3.BoolVal(("ghost", "set") not in st.mem), "one write only", "pre"); st.mem[("ghost", "set")] = (self.op,) + tuple(av[3:]); 
        if self.op != "remove" and av[3].r is not None: st.mem[("ghost", "arr")] = ex.arr_of(st, av[3].r, 0)
        return [(st, True)]
def dp(nm, op, sig): return type("Dispatch", (Dispatch,), {"name": f"KVstore::{nm}(IVArray*, unsigned int{sig}", "title": f"KVstore::{nm} (triple index)", "op": op})()
GETV, SETV, ADDV, REMV = DISP = [dp("getValueByKey", "search", ", char*&, unsigned long&) const"), dp("setValueByKey", "modify", ", char*, unsigned long)"), dp("addValueByKey", "insert", ", char*, unsigned long)"), dp("removeKey", "remove", ")")]

class SO:
    """the list of one subject (h=3) or object (h=2), as read from the store"""
    def __init__(self, ex, st, h):
        self.h = h; n, m = self.n, self.m = fresh("triples"), fresh("preds"); L = self.L = fresh("words"); self.p = array(ex, st, "stored", L); self.p.r.heap = "new[]"; A = self.A = arr0(ex, st, self.p); st.assume(ranged(A, L))
        st.assume(z3.And(n >= 1, n < NMAX, m >= 1, m <= n, L == h + 2 * m + n, A[0] == n, A[1] == m))
        st.assume(self.wf(A, n, m, L))
        if h == 3: st.assume(A[2] <= n)
    def wf(self, A, n, m, L):
        h = self.h; b = h + 2 * m
        return z3.And(rising(A, h, b, h, 2), rising(A, h + 1, b, h + 1, 2), A[h + 1] == b, each(h + 1, b, lambda x: z3.And(A[x] >= b, A[x] < L), h + 1, 2))
    def P(self, i): return self.A[self.h + 2 * i]
    def beg(self, i): return self.A[self.h + 1 + 2 * i]
    def end(self, i): return z3.If(i == self.m - 1, self.L, self.beg(i + 1))
class PL:
    """the list of one predicate: subjects, then objects"""
    def __init__(self, ex, st):
        n = self.n = fresh("triples"); L = self.L = 2 * n + 1; self.p = array(ex, st, "stored", L); self.p.r.heap = "new[]"; A = self.A = arr0(ex, st, self.p); st.assume(ranged(A, L)); st.assume(z3.And(n >= 1, n < NMAX, A[0] == n))
        st.assume(forall([q1, q2], z3.Implies(z3.And(1 <= q1, q1 < q2, q2 <= n), z3.Or(A[q1] < A[q2], z3.And(A[q1] == A[q2], A[n + q1] < A[n + q2])))))
def no_leak(c, st, keep=()): return z3.BoolVal(c.V is None or bool(st.freed.get(c.V.r.id)))
class Reader(Contract):
    uses = (GETV, BS); k = "sub"
    def make(self, ex, st): return PL(ex, st) if self.k == "pre" else SO(ex, st, 3 if self.k == "sub" else 2)
class Degree(Reader):
    pred = False
    def setup(self, ex):
        for lab in ("list", "no list"):
            st = State(); W = World(ex, st); key = u32(ex, st, "id"); S = self.make(ex, st); a = [Ptr(W.o), key]; p = None
            if self.pred: p = u32(ex, st, "pred"); a.append(p); p = p.e
            yield Case(lab, st, a, W=W, k=self.k, key=key.e, V=S.p if lab == "list" else None, L=S.L, S=S, p=p)
    def post(self, ex, c, st, ret):
        r = ze(ex.U(st, ret)); S = c.S; out = [("the copy read is released", no_leak(c, st))]
        if c.V is None: return [("nothing stored: 0", r == 0)]
        if not self.pred: return out + [("the number of triples of the list", r == S.n)]
        x = fresh("k"); return out + [("with the predicate at a place of the list: the length of its part", z3.Implies(z3.And(0 <= x, x < S.m, S.P(x) == c.p), r == S.end(x) - S.beg(x))), ("without it: 0", z3.Implies(each(S.h, S.h + 2 * S.m, lambda y: S.A[y] != c.p, S.h, 2), r == 0))]
def dg(nm, k, pred=False): return type("Degree", (Degree,), {"name": f"KVstore::{nm}({'int' if k == 'pre' else 'unsigned int'}{', int' if pred else ''}) const", "title": f"KVstore::{nm}", "k": k, "pred": pred})()
DEG = [dg("getEntityInDegree", "obj"), dg("getEntityOutDegree", "sub"), dg("getLiteralDegree", "obj"), dg("getPredicateDegree", "pre"), dg("getSubjectPredicateDegree", "sub", True), dg("getObjectPredicateDegree", "obj", True)]

# ---------------------------------------------------------------- one triple added or removed
class Update(Reader):
    """k: place of the predicate, t: place of the third component in its part; both arbitrary within what they mean"""
    uses = (GETV, BS, SETV, ADDV, REMV); op = "add"; budget = 300
    def setup(self, ex):
        for lab in [self.lab]:
            st = State(); W = World(ex, st); s, p, o = u32(ex, st, "s"), u32(ex, st, "p"), u32(ex, st, "o"); st.assume(p.e < (1 << 31)); key = {"sub": s, "obj": o, "pre": p}[self.k].e; third = (o if self.k == "sub" else s).e
            S = self.make(ex, st); c = Case(lab, st, [Ptr(W.o), s, p, o], W=W, k=self.k, key=key, V=None if lab == "first" else S.p, L=S.L, S=S, pr=p.e, x=third, s=s.e, o=o.e, lab=lab)
            self.place(ex, st, c, S); c.hit = None if self.k == 'pre' else INVALID if lab == 'new predicate' else c.K; c.span = (-1, 13); c.small = [(S.n, 0, 3), (c.T, -1, 13), (c.K, 0, 3)] + ([(S.m, 0, 2)] if self.k != 'pre' else []); yield c
    def place(self, ex, st, c, S):
        k, t = c.K, c.T = fresh("k"), fresh("t")
        if self.k == "pre":
            lt = lambda i: z3.Or(S.A[i] < c.s, z3.And(S.A[i] == c.s, S.A[S.n + i] < c.o)); gt = lambda i: z3.Or(S.A[i] > c.s, z3.And(S.A[i] == c.s, S.A[S.n + i] > c.o))
            st.assume(z3.And(1 <= t, t <= S.n + 1, A_([q1], z3.Implies(z3.And(1 <= q1, q1 < t), lt(q1)))))
            if c.lab in ("more", "first"): st.assume(A_([q1], z3.Implies(z3.And(t <= q1, q1 <= S.n), gt(q1))))
            else: st.assume(z3.And(t <= S.n, S.A[t] == c.s, S.A[S.n + t] == c.o, S.n == 1 if c.lab == "last" else S.n > 1, A_([q1], z3.Implies(z3.And(t < q1, q1 <= S.n), gt(q1)))))
            return
        h = S.h; have = c.lab in ("known predicate", "part stays", "part goes", "last"); kx = h + 2 * k; e0 = h + 2 * S.m
        st.assume(z3.And(0 <= k, k <= S.m, each(h, kx, lambda x: S.A[x] < c.pr, h, 2)))
        if h == 3 and self.op == 'sub': st.assume(S.A[2] >= self.ent(c))
        if not have: st.assume(each(kx, e0, lambda x: S.A[x] > c.pr, h, 2)); return
        st.assume(z3.And(k < S.m, S.P(k) == c.pr, each(kx + 2, e0, lambda x: S.A[x] > c.pr, h, 2))); b, e = S.beg(k), S.end(k)
        st.assume(z3.And(b <= t, t <= e, each(b, t, lambda x: S.A[x] < c.x)))
        if c.lab == "known predicate": st.assume(each(t, e, lambda x: S.A[x] > c.x))
        else: st.assume(z3.And(t < e, S.A[t] == c.x, each(t + 1, e, lambda x: S.A[x] > c.x), S.n == 1 if c.lab == "last" else z3.And(S.n > 1, (e - b == 1) if c.lab == "part goes" else e - b > 1)))
    def ent(self, c): return z3.If(c.o < LIT, 1, 0)
    def splice(self, c):
        """the new list in parts [(name, condition on place q1 of the new block or None, place, value)] and its length; a part is a run of the old block moved by a distance, its values by an amount"""
        S = c.S; A, h = S.A, getattr(S, "h", 0); k, t = c.K, c.T; R = []
        def w(nm, lo, hi, shift, par=None, plus=0): R.append((nm, z3.And(ze(lo) + shift <= q1, q1 < ze(hi) + shift, True if par is None else every(q1, h + par + shift, 2)), q1, A[q1 - shift] + plus if plus else A[q1 - shift]))
        def one(nm, at, val): R.append((nm, None, at, val))
        if self.k == "pre":
            if c.lab == "first": one("count", 0, 1); one("subject", 1, c.s); one("object", 2, c.o); return R, 3
            d = 1 if self.op == "add" else -1; n2 = S.n + d; one("count", 0, n2); w("subjects before", 1, t, 0); w("objects before", S.n + 1, S.n + t, d)
            if d == 1: one("subject", t, c.s); one("object", n2 + t, c.o)
            u = t if d == 1 else t + 1; w("subjects behind", u, S.n + 1, d); w("objects behind", S.n + u, 2 * S.n + 1, 2 * d)
            return R, 2 * n2 + 1
        if c.lab == "first":
            one("count", 0, 1); one("predicates", 1, 1); one("predicate", h, c.pr); one("offset", h + 1, h + 2); one("element", h + 2, c.x)
            if h == 3: one("entities", 2, self.ent(c))
            return R, h + 3
        b = h + 2 * S.m; d = 1 if self.op == "add" else -1; one("count", 0, S.n + d); kx = h + 2 * k
        if h == 3: one("entities", 2, A[2] + d * self.ent(c))
        if c.lab in ("known predicate", "part stays"):
            one("predicates", 1, S.m); w("predicate entries", h, b, 0, 0); w("offsets before", h, kx + 2, 0, 1); w("offsets behind", kx + 2, b, 0, 1, d); w("elements before", b, t, 0)
            if d == 1: one("element", t, c.x)
            w("elements behind", t if d == 1 else t + 1, S.L, d); return R, S.L + d
        one("predicates", 1, S.m + d); w("predicates before", h, kx, 0, 0); w("offsets before", h, kx, 0, 1, 2 * d)
        if d == 1:
            u = z3.If(k < S.m, S.beg(k), S.L); one("predicate", kx, c.pr); one("offset", kx + 1, u + 2); one("element", u + 2, c.x)
            w("predicates behind", kx, b, 2, 0); w("offsets behind", kx, b, 2, 1, 3); w("elements before", b, u, 2); w("elements behind", u, S.L, 3)
        else: w("predicates behind", kx + 2, b, -2, 0); w("offsets behind", kx + 2, b, -2, 1, -3); w("elements before", b, t, -2); w("elements behind", t + 1, S.L, -3)
        return R, S.L + 3 * d
    def gen(self, ex, c, L):
        """the parts of the new list written so far: each one up to a loop variable (or wholly), wherever the new block is"""
        if c.lab in ("first", "last"): return
        R, n2 = self.splice(c)
        ints = [x for x in L.vars if x.kind == "int"]
        regs = [r for k, r, a0, a in L.arrs if r is not None and r.heap == "new[]" and r is not c.V.r]
        for r in regs[:1]:
            for nm, cond, at, val in R:
                if cond is None:
                    yield nm, lambda v, at=at, val=val: v.arr(r)[ze(at)] == ze(val)
                    if nm == "element":
                        for x in ints: yield nm + f" before {x.name}", lambda v, x=x, at=at, val=val: z3.Implies(v[x] > ze(at), v.arr(r)[ze(at)] == ze(val)); yield nm + f" when passed by {x.name}", lambda v, x=x, at=at, val=val: z3.Implies(v[x] > ze(at) - 2, v.arr(r)[ze(at)] == ze(val))
                    continue
                yield nm, lambda v, cond=cond, at=at, val=val: forall([q1], z3.Implies(cond, v.arr(r)[at] == val))
                if c.lab in ("known predicate", "part stays") and nm == "elements before": yield "elements of earlier parts", lambda v, cond=cond, at=at, val=val: forall([q1], z3.Implies(z3.And(cond, q1 < c.S.beg(c.K)), v.arr(r)[at] == val))
                for x in ints:
                    yield nm + f" below {x.name}", lambda v, x=x, cond=cond, at=at, val=val: forall([q1], z3.Implies(z3.And(cond, q1 < ze(v[x])), v.arr(r)[at] == val))
                    if self.k != "pre" and "element" not in nm: yield nm + f" below h+2{x.name}", lambda v, x=x, cond=cond, at=at, val=val: forall([q1], z3.Implies(z3.And(cond, q1 < c.S.h + 2 * ze(v[x])), v.arr(r)[at] == val))
                    if self.k == "pre":
                        for sh in (c.S.n, c.S.n + 1, c.S.n - 1): yield nm + f" below {x.name}+{sh}", lambda v, x=x, cond=cond, at=at, val=val, sh=sh: forall([q1], z3.Implies(z3.And(cond, q1 < sh + ze(v[x])), v.arr(r)[at] == val))
            for nm, f in self.extra(ex, c, L, r): yield nm, f
    def extra(self, ex, c, L, r):
        S = c.S; k, t = c.K, c.T; ints = [x for x in L.vars if x.kind == "int"]; h = getattr(S, "h", 0)
        for x in ints:
            yield f"{x.name} <= t", lambda v, x=x: z3.And(v[x] <= t)
            yield f"{x.name} <= k", lambda v, x=x: z3.And(v[x] <= k)
            yield f"{x.name} >= t", lambda v, x=x: z3.And(v[x] >= t)
            yield f"{x.name} >= k", lambda v, x=x: z3.And(v[x] >= k)
            yield f"{x.name} <= L", lambda v, x=x: z3.And(v[x] <= S.L)
            if h:
                yield f"{x.name} <= m", lambda v, x=x: z3.And(v[x] <= S.m)
                yield f"{x.name} <= b", lambda v, x=x: z3.And(v[x] <= h + 2 * S.m)
                yield f"{x.name} >= b", lambda v, x=x: z3.And(v[x] >= h + 2 * S.m)
                for y in ints:
                    if x is y: continue
                    yield f"{x.name} = h+2{y.name}", lambda v, x=x, y=y: v[x] == h + 2 * v[y]
                    yield f"{x.name} = h+2+2{y.name}", lambda v, x=x, y=y: v[x] == h + 2 + 2 * v[y]
                    if c.lab in ("new predicate", "part goes"):
                        d = 1 if self.op == "add" else -1; E = z3.If(k < S.m, S.beg(k), S.L) if d == 1 else t
                        yield f"{x.name} = {y.name} moved", lambda v, x=x, y=y, d=d, E=E: v[x] == v[y] + 2 * d + z3.If(v[y] > E, d, 0)
                    for a in (2, 3):
                        yield f"{x.name} = {y.name}+{a}", lambda v, x=x, y=y, a=a: v[x] == v[y] + a
            else: yield f"{x.name} <= n+1", lambda v, x=x: z3.And(v[x] <= S.n + 1)
            for y in ints:
                if x is not y: yield f"{x.name} = {y.name}+1", lambda v, x=x, y=y: v[x] == v[y] + 1; yield f"{x.name} = {y.name}+d", lambda v, x=x, y=y: v[x] == v[y]
    def post(self, ex, c, st, ret):
        g = st.mem.get(("ghost", "set")); out = [("the update succeeds", ze(ret) == z3.BoolVal(True)), ("the copy read is released", no_leak(c, st))]
        want = "insert" if c.lab == "first" else "remove" if c.lab == "last" else "modify"
        if g is None or g[0] != want: return out + [(f"the list is written ({want})", z3.BoolVal(False))]
        if want == "remove": return out
        R, n2 = self.splice(c); d, ln = g[1], ze(ex.U(st, g[2])); ok = d.r is not None and d.r.heap == "new[]" and d.off.isconst() and d.off.c == 0 and d.r is not (c.V.r if c.V else None) and not st.freed.get(d.r.id)
        out += [("a block of its own is handed to the store", z3.BoolVal(ok)), ("the length handed over", ln == 4 * ze(n2)), ("the block is as long", ze(d.r.nbytes.divmod(4)[0]) == ze(n2))]
        N = ex.arr_of(st, d.r, 0)
        return out + [("new list: " + nm, N[ze(at)] == ze(val) if cond is None else forall([q1], z3.Implies(cond, N[at] == val))) for nm, cond, at, val in R]
LABELS = {("add", "pre"): ["more", "first"], ("sub", "pre"): ["more gone", "last"], "add": ["known predicate", "new predicate", "first"], "sub": ["part stays", "part goes", "last"]}
def up(nm, k, op, lab): return type("Update", (Update,), {"name": f"KVstore::{nm}(unsigned int, int, unsigned int)", "title": f"KVstore::{nm}: {lab}", "k": k, "op": op, "lab": lab})()
UPD = [up(f"update{a}_{x}2values", k, op, lab) for x, k in (("s", "sub"), ("o", "obj"), ("p", "pre")) for a, op in (("Insert", "add"), ("Remove", "sub")) for lab in LABELS.get((op, k)) or LABELS[op]]

# ---------------------------------------------------------------- lookups outside a transaction
class SortedCopy:
    """what Util::sort does to a list: an ascending arrangement of what was there (qsort; remembered, so that a postcondition can name it)"""
    @staticmethod
    def model(ex, func, st, dn, av, rt):
        p = ex.load(st, func, Ty("ptr"), av[0]); n = ze(ex.U(st, av[1]))
        if p.r is None or not (p.off.isconst() and p.off.c == 0): raise Unsupported("sort of a part of a block")
        m = p.r.nbytes.divmod(4); ex.oblige(st, z3.And(n >= 0, n <= ze(m[0])), "the list sorted lies inside its block", "pre")
        A = ex.arr_of(st, p.r, 0); N = fresh("sorted", A.sort()); st.assume(A_([q1, q2], z3.Implies(z3.And(0 <= q1, q1 < q2, q2 < n), N[q1] <= N[q2]))); st.assume(ranged(N, n)); st.mem[(p.r.id, 0)] = N; st.writes.append((p.r, 0, None, N)); st.mem[("ghost", "sorted")] = (p.r, n, A, N); return [(st, None)]
class Dedup(Contract):
    """Util::removeDuplicate, proved in C01: asks for an ascending list, leaves its distinct elements"""
    name = "Util::removeDuplicate(unsigned int*, unsigned int)"
    def apply(self, ex, func, st, av, rt):
        p, n = av[0], ze(ex.U(st, av[1]))
        if p.r is None or not (p.off.isconst() and p.off.c == 0): raise Unsupported("duplicates in a part of a block")
        A = ex.arr_of(st, p.r, 0); m = p.r.nbytes.divmod(4); ex.oblige(st, z3.And(n >= 0, n <= ze(m[0])), "the list lies inside its block", "pre"); ex.oblige(st, A_([q1, q2], z3.Implies(z3.And(0 <= q1, q1 < q2, q2 < n), A[q1] <= A[q2])), "the list whose duplicates go is ascending", "pre")
        N = fresh("dedup", A.sort()); r = fresh("kept"); st.assume(z3.And(r >= 0, r <= n)); st.mem[(p.r.id, 0)] = N; st.writes.append((p.r, 0, None, N)); st.mem[("ghost", "dedup")] = (p.r, n, A, r, N); return [(st, IV(32, r, 0, INVALID))]
DEDUP = Dedup()
class Getter(Reader):
    uses = (GETV, BS, DEDUP); models = [(re.compile(r"^Util::sort\(unsigned int\*&, unsigned int\)"), SortedCopy.model)]; what = ""; budget = 300
    def setup(self, ex):
        for lab in ("list", "no list"):
            st = State(); W = World(ex, st); key = u32(ex, st, "id"); S = self.make(ex, st); a = [Ptr(W.o), key]; p = None
            if self.what == "part": p = u32(ex, st, "pred"); a.append(p); p = p.e; st.assume(p < (1 << 31))
            O, N, X = (Region(x, "obj") for x in ("list", "len", "txn")); O.init[0] = Ptr(None); N.init[0] = ex.const(32, 0); O.slotw[0] = 8; N.slotw[0] = 4; nd = fresh("nd", z3.BoolSort())
            for x in (0, 8): X.init[x] = Ptr(None); X.slotw[x] = 8
            if self.k == "pre": st.assume(key.e < (1 << 31))
            c = Case(lab, st, a + [Ptr(O), Ptr(N), nd, Ptr(X)], W=W, k=self.k, key=key.e, V=S.p if lab == "list" else None, L=S.L, S=S, p=p, O=O, N=N, nd=nd); c.e, c.kk = fresh("e"), fresh("kk"); m_ = getattr(S, "m", z3.IntVal(1)); st.assume(z3.And(0 <= c.e, c.e < S.n, 0 <= c.kk, c.kk < m_))
            if self.what == "pairs" and self.k != "pre": c.span = (-1, 20); c.small = [(S.n, 0, 3), (S.m, 0, 3)]
            yield c
    def gen(self, ex, c, L):
        S = c.S; ints = [x for x in L.vars if x.kind == "int"]; regs = [r for k, r, a0, a in L.arrs if r is not None and r.heap == "new[]" and r is not S.p.r]
        for r in regs[:1]:
            for x in ints:
                if self.what == "preds": yield f"copied below {x.name}", lambda v, x=x: A_([q1], z3.Implies(z3.And(0 <= q1, q1 < ze(v[x])), v.arr(r)[q1] == S.P(q1)))
                if self.what == "pairs" and self.k == "pre": yield f"copied below {x.name}", lambda v, x=x: A_([q1], z3.Implies(z3.And(0 <= q1, q1 < ze(v[x])), z3.And(v.arr(r)[2 * q1] == S.A[1 + q1], v.arr(r)[2 * q1 + 1] == S.A[1 + S.n + q1])))
                if self.what == "pairs" and self.k != "pre":
                    b = S.h + 2 * S.m; R = lambda v: v.arr(r)
                    yield f"seconds below {x.name}", lambda v, x=x: A_([q1], z3.Implies(z3.And(0 <= q1, q1 < ze(v[x])), R(v)[2 * q1 + 1] == S.A[b + q1]))
                    yield f"firsts of the arbitrary place below {x.name}", lambda v, x=x: z3.Implies(z3.And(c.e >= 0, b + c.e >= S.beg(c.kk), b + c.e < S.end(c.kk), c.e < ze(v[x])), R(v)[2 * c.e] == S.P(c.kk))
                    yield f"{x.name} <= n", lambda v, x=x: z3.And(v[x] >= 0, v[x] <= S.n)
                    for y in ints:
                        if x is y: continue
                        yield f"{x.name} at part {y.name}", lambda v, x=x, y=y: z3.Implies(ze(v[y]) < S.m, b + v[x] == S.beg(ze(v[y])))
                        yield f"{x.name} at the end after part {y.name}", lambda v, x=x, y=y: z3.Implies(ze(v[y]) >= S.m, v[x] == S.n)
                        yield f"{x.name} in part {y.name}", lambda v, x=x, y=y: z3.And(ze(v[y]) < S.m, b + v[x] >= S.beg(ze(v[y])), b + v[x] <= S.end(ze(v[y])))
                        yield f"{x.name} is behind part {y.name}", lambda v, x=x, y=y: v[x] == S.end(ze(v[y]))
                    yield f"{x.name} <= m", lambda v, x=x: z3.And(v[x] >= 0, v[x] <= S.m)
                    yield f"parts before {x.name} begin before", lambda v, x=x: z3.Implies(z3.And(ze(v[x]) < S.m, c.kk < ze(v[x])), S.end(c.kk) <= S.beg(ze(v[x])))
                    yield f"parts from {x.name} on begin there", lambda v, x=x: z3.Implies(z3.And(ze(v[x]) < S.m, c.kk > ze(v[x])), S.end(ze(v[x])) <= S.beg(c.kk))
    def post(self, ex, c, st, ret):
        S = c.S; r = ret if z3.is_expr(ret) else z3.BoolVal(bool(ret)) if isinstance(ret, bool) else ze(ex.U(st, ret)) == 1; p = slot(ex, st, Ptr(c.O), 0); ln = ze(ex.U(st, slot(ex, st, Ptr(c.N), 0))); null = p.r is None; bad = z3.Or(z3.BoolVal(c.V is None), z3.Not(c.key < LIT) if self.k == "sub" else c.key == INVALID if self.k == "obj" else z3.BoolVal(False))
        if self.what == "part": miss = z3.Or(bad, each(S.h, S.h + 2 * S.m, lambda y: S.A[y] != c.p, S.h, 2))
        else: miss = bad
        read = ("ghost", "read") in st.mem or c.V is None
        if null: return [("nothing only when nothing matches", miss), ("nothing: reported, and no length", z3.And(z3.Not(r), ln == 0)), ("the copy read is released", z3.Or(z3.BoolVal(c.V is None or bool(st.freed.get(S.p.r.id))), bad))]
        out = [("an answer only when something matches", z3.Not(miss)), ("an answer is reported", r), ("the copy read is released", no_leak(c, st)), ("the caller gets a block of its own", z3.BoolVal(p.r.heap == "new[]" and p.off.isconst() and p.off.c == 0 and p.r is not S.p.r and not st.freed.get(p.r.id)))]
        N = ex.arr_of(st, p.r, 0); h = getattr(S, "h", 0)
        if self.what == "preds": return out + [("as many predicates as the list has", ln == S.m), ("the predicates of the list", A_([q1], z3.Implies(z3.And(0 <= q1, q1 < S.m), N[q1] == S.P(q1))))]
        if self.what == "part":
            x = fresh("k"); at = z3.And(0 <= x, x < S.m, S.P(x) == c.p); return out + [("as long as the part of the predicate", z3.Implies(at, ln == S.end(x) - S.beg(x))), ("the part of the predicate", z3.Implies(at, A_([q1], z3.Implies(z3.And(0 <= q1, q1 < ln), N[q1] == S.A[S.beg(x) + q1]))))]
        if self.what == "pairs":
            out.append(("two numbers for each triple", ln == 2 * S.n))
            if self.k == "pre": return out + [("the pairs of the list", A_([q1], z3.Implies(z3.And(0 <= q1, q1 < S.n), z3.And(N[2 * q1] == S.A[1 + q1], N[2 * q1 + 1] == S.A[1 + S.n + q1]))))]
            b = h + 2 * S.m; return out + [("the second of each pair", A_([q1], z3.Implies(z3.And(0 <= q1, q1 < S.n), N[2 * q1 + 1] == S.A[b + q1]))), ("the first of each pair is the predicate of its part", z3.Implies(z3.And(b + c.e >= S.beg(c.kk), b + c.e < S.end(c.kk)), N[2 * c.e] == S.P(c.kk)))]
        src = (lambda i: S.A[1 + i]) if self.what == "firsts" else (lambda i: S.A[1 + S.n + i]) if self.k == "pre" else (lambda i: S.A[h + 2 * S.m + i]); so, de = st.mem.get(("ghost", "sorted")), st.mem.get(("ghost", "dedup")); cur = N
        if de is not None:
            out += [("repetitions go only when they are to", c.nd), ("what is left is the answer", z3.And(z3.BoolVal(de[0] is p.r and de[4] is N or de[0] is p.r and z3.eq(de[4], N)), ln == de[3], de[1] == S.n))]; cur = de[2]
        else: out += [("repetitions stay only when they may", z3.Not(c.nd)), ("as long as the list", ln == S.n)]
        if self.what == "firsts": ok = so is None
        else: ok = so is not None and so[0] is p.r and z3.eq(so[3], cur); cur = so[2] if so else cur; out.append(("the whole list is put in order", so[1] == S.n if so else z3.BoolVal(False)))
        return out + [("the list is put in order where it need be", z3.BoolVal(ok)), ("the elements are those of the list", A_([q1], z3.Implies(z3.And(0 <= q1, q1 < S.n), cur[q1] == src(q1))))]
def gt(nm, k, what): return type("Getter", (Getter,), {"name": f"KVstore::{nm}({'int' if k == 'pre' else 'unsigned int'}{', int' if what == 'part' else ''}, unsigned int*&, unsigned int&, bool, std::shared_ptr<Transaction>) const", "title": f"KVstore::{nm} (no transaction)", "k": k, "what": what})()
GET = [gt("getpreIDlistBysubID", "sub", "preds"), gt("getpreIDlistByobjID", "obj", "preds"), gt("getobjIDlistBysubIDpreID", "sub", "part"), gt("getsubIDlistByobjIDpreID", "obj", "part"), gt("getobjIDlistBysubID", "sub", "thirds"), gt("getsubIDlistByobjID", "obj", "thirds"), gt("getobjIDlistBypreID", "pre", "thirds"), gt("getsubIDlistBypreID", "pre", "firsts"), gt("getsubIDobjIDlistBypreID", "pre", "pairs"), gt("getpreIDobjIDlistBysubID", "sub", "pairs"), gt("getpreIDsubIDlistByobjID", "obj", "pairs")]

# ---------------------------------------------------------------- built on the above
import C01
class KVIntersect(Contract):
    name = "KVstore::intersect(unsigned int const*, unsigned int const*, unsigned int, unsigned int)"; title = "KVstore::intersect"; budget = 200
    def setup(self, ex):
        st, p, q, n, m, d = C01.two_lists(ex); st.assume(z3.And(d["i0"] < n.e, d["j0"] < m.e)); o = Region("result", "obj"); yield Case("", st, [Ptr(o), p, q, n, m], o=Ptr(o), p=p, q=q, **d)
    def gen(self, ex, c, L): return C01.vecgen(c, L, [(c.A, c.n), (c.B, c.m)])
    def post(self, ex, c, st, ret):
        r, l = vec_size(ex, st, c.o, 4)
        if r is None: return [("an empty result only without common elements", c.A[c.i0] != c.B[c.j0])]
        return C01.inter_post(c, ex.arr_of(st, r, 0), ze(l))
class PartOf(Contract):
    """getobjIDlistBysubIDpreID as its callers see it: the part of the predicate, in a block of its own, ascending"""
    name = "KVstore::getobjIDlistBysubIDpreID(unsigned int, int, unsigned int*&, unsigned int&, bool, std::shared_ptr<Transaction>) const"
    def apply(self, ex, func, st, av, rt):
        c = ex.case; ex.oblige(st, z3.And(ze(ex.U(st, av[1])) == c.s, ze(ex.U(st, av[2])) == c.pr), "asked about the given subject and predicate", "pre"); s2 = st.clone(); out = []
        p = array(ex, st, "objects", c.n); p.r.heap = "new[]"; p.r.pre = False; st.mem[(p.r.id, 0)] = c.A; st.assume(c.n >= 1); ex.store(st, func, Ty("ptr"), p, av[3]); ex.store(st, func, Ty("i", 32), IV(32, c.n, 0, INVALID), av[4]); out.append((st, True)); st.mem[("ghost", "part")] = p.r
        s2.assume(c.n == 0); ex.store(s2, func, Ty("ptr"), Ptr(None), av[3]); ex.store(s2, func, Ty("i", 32), ex.const(32, 0), av[4]); out.append((s2, False)); return out
class Exist(Contract):
    name = "KVstore::existThisTriple(unsigned int, int, unsigned int)"; title = "KVstore::existThisTriple"; uses = (PartOf(), C01.BSearchInt())
    def setup(self, ex):
        st = State(); W = World(ex, st); s, p, o = u32(ex, st, "s"), u32(ex, st, "p"), u32(ex, st, "o"); n = fresh("objects"); st.assume(z3.And(n >= 0, n < NMAX, p.e < (1 << 31))); A = fresh("part", z3.ArraySort(z3.IntSort(), z3.IntSort())); st.assume(rising(A, 0, n)); st.assume(ranged(A, n))
        yield Case("", st, [Ptr(W.o), s, p, o], s=s.e, pr=p.e, o=o.e, n=n, A=A)
    def post(self, ex, c, st, ret):
        g = st.mem.get(("ghost", "part")); return [("present exactly when the object is in the part of subject and predicate", zb(ret) == exists([q4], z3.And(0 <= q4, q4 < c.n, c.A[q4] == c.o))), ("the list asked for is released", z3.BoolVal(g is None or bool(st.freed.get(g.id))))]
class OneIndex(Contract):
    def __init__(self, nm, k): self.name = f"KVstore::{nm}(unsigned int, int, unsigned int)"; self.k = k
    def apply(self, ex, func, st, av, rt):
        c = ex.case; ex.oblige(st, z3.And([ze(ex.U(st, a)) == v for a, v in zip(av[1:4], (c.s, c.pr, c.o))]), "every index is told the same triple", "pre"); ex.oblige(st, z3.BoolVal(("ghost", self.k) not in st.mem), "each index is told once", "pre"); r = fresh("done", z3.BoolSort()); st.mem[("ghost", self.k)] = r; return [(st, r)]
class Tuples(Contract):
    def setup(self, ex):
        st = State(); W = World(ex, st); s, p, o = u32(ex, st, "s"), u32(ex, st, "p"), u32(ex, st, "o"); X = Region("txn", "obj")
        for x in (0, 8): X.init[x] = Ptr(None); X.slotw[x] = 8
        yield Case("", st, [Ptr(W.o), s, p, o, Ptr(X)], s=s.e, pr=p.e, o=o.e)
    def post(self, ex, c, st, ret):
        g = [st.mem.get(("ghost", k)) for k in ("s", "o", "p")]; return [("success is reported exactly when every index was told and succeeded", zb(ret) == (z3.And(g) if all(x is not None for x in g) else z3.BoolVal(False))), ("an index is left out only when one before it failed", z3.Or([z3.BoolVal(all(x is not None for x in g))] + [z3.Not(x) for x in g if x is not None]))]
def tp(nm, up): return type("Tuples", (Tuples,), {"name": f"KVstore::{nm}(unsigned int, int, unsigned int, std::shared_ptr<Transaction>)", "title": f"KVstore::{nm} (no transaction)", "uses": tuple(OneIndex(f"{up}_{k}2values", k) for k in "sop")})()
TOP = [KVIntersect(), Exist(), tp("updateTupleslist_insert", "updateInsert"), tp("updateTupleslist_remove", "updateRemove")]

FUNCS = [BS] + DISP + DEG + GET + TOP + UPD
HARNESS = {"src": "C02.cpp", "tus": ["KVstore/KVstore.cpp", "Util/Version.cpp", "KVstore/IVArray/IVEntry.cpp", "KVstore/IVArray/IVArray.cpp", "KVstore/IVArray/IVBlockManager.cpp", "Util/GraphLock.cpp", "Util/Latch.cpp", "Util/Transaction.cpp", "Util/Bstr.cpp", "Util/Util.cpp", "Util/VList.cpp"], "secs": 15}
ASSUMPTIONS = ["lists hold fewer than 2^29 triples", "the list of a subject, object or predicate has the layout that build_*2values and the updates give it (ascending predicates with rising offsets, parts not empty, entity count of a subject not above its triples); that a single update keeps it follows from the proved contents of the new list, bulk load is checked by the harness", "IVArray::search/insert/modify/remove store and return the bytes of a key (C13)", "Util::sort arranges its list in ascending order (qsort)", "callers of the single-triple updates ask for absent triples to insert and present ones to remove (Database::exist_triple)"]
BOUNDED = ["updates of many triples at a time (Insert_/Remove_*2values with a batch), build_*2values, and every lookup inside a transaction: harness only (seeded histories of up to 150 operations over small and large identifiers)", "getpreIDlistBysubIDobjID: harness only"]
