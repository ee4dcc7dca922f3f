"""C09: variable sets.  A name is abstracted to the identity of its text (equal texts, equal values); a list of names is a std::vector of those.
Every operation of Varset is proved against the set of names its list holds, with the order of first occurrence."""
import re
from spec import *
from vals import *
import stl

ID = "C09"
TUS = ["Query/Varset.cpp"]
S = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"
OPT = {"elem": {S: 32}, "elem_leaves": {S: [(0, Ty("i", 64))]}}
BOOLS = z3.ArraySort(z3.IntSort(), z3.BoolSort())
def text(ex, func, st, p): return ze(ex.U(st, ex.load(st, func, Ty("i", 64), p)))
def m_eq(ex, func, st, dn, av, rt): r = text(ex, func, st, av[0]) == text(ex, func, st, av[1]); return [(st, Not(r) if "operator!=" in dn else r)]
MODELS = [(re.compile(r"^bool std::operator(==|!=)<char, std::char_traits<char>, std::allocator<char> ?>\(std::__cxx11::basic_string"), m_eq)]
a1, b1, c1, d1, x1 = z3.Ints("a1 b1 c1 d1 x1")
def nodup(A, n): return forall([a1, b1], z3.Implies(z3.And(0 <= a1, a1 < b1, b1 < n), A[a1] != A[b1]))
def within(A, n, x): return exists([d1], z3.And(0 <= d1, d1 < n, A[d1] == x))
def first_order(R, lo, m, A, n): return forall([a1, b1, c1], z3.Implies(z3.And(lo <= a1, a1 < b1, b1 < m, 0 <= c1, c1 < n, A[c1] == R[b1]), exists([d1], z3.And(0 <= d1, d1 < c1, A[d1] == R[a1]))))
class L:      # a list of names: its array, its length, the set of its names
    def __init__(s, p, r, A, n, I): s.p, s.r, s.A, s.n, s.I = p, r, A, n, I
def names(ex, st, nm, distinct=True):
    n = fresh(nm); p, r = vector(ex, st, nm, n, 32, fields=True); r.slotw[0] = 8; A = ex.arr_of(st, r, 0); I = fresh("set of " + nm, BOOLS)
    st.assume(z3.And(n >= 0, n < (1 << 31) - 1)); st.assume(forall([a1], z3.And(A[a1] >= 0, A[a1] < 1 << 64))); st.assume(forall([x1], I[x1] == within(A, n, x1)))
    st.assume(forall([a1], z3.Implies(z3.And(0 <= a1, a1 < n), I[A[a1]])))      # the same definition, read the other way
    if distinct: st.assume(nodup(A, n))
    return L(p, r, A, n, I)
def name(ex, st):
    o = Region("name", "obj"); o.pre = True; v = ex.fresh_int(64, "name", st=st); o.init[0] = v; o.slotw[0] = 8; return Ptr(o), v.e
def cur(ex, st, p, w=32):
    b, e = stl.g(st, p, 0), stl.g(st, p, 8)
    if b is None or b.r is None: raise Unsupported("an unknown list")
    b.r.slotw.setdefault(0, 8 if w == 32 else 4); return b.r, ex.arr_of(st, b.r, 0), ze(e.off.sub(b.off).divmod(w)[0])
class V(Contract):
    opt = OPT; models = MODELS; budget = 120; two = True; sret = True
    def setup(self, ex):
        for same in ((False, True) if self.two else (False,)):
            st = State(); A = names(ex, st, "these names"); B = A if same else names(ex, st, "those names") if self.two else None; o = Region("result", "obj"); args = ([Ptr(o)] if self.sret else []) + [A.p] + ([B.p] if B else [])
            yield Case("itself" if same else "", st, args, A=A, B=B, out=o)
    def vec(self, c, L):
        """the vector a loop builds: (its object, its elements)"""
        return [(o, r) for o, r in vec_objs(L) if r is not c.A.r or self.grows]
    grows = False
class Find(V):
    name = f"Varset::findVar({S} const&) const"; title = "Varset::findVar"
    def setup(self, ex): st = State(); A = names(ex, st, "these names", False); p, x = name(ex, st); yield Case("", st, [A.p, p], A=A, x=x)
    def gen(self, ex, c, L): yield "not found so far", lambda v: z3.And(v["it"] <= c.A.n, forall([a1], z3.Implies(z3.And(0 <= a1, a1 < v["it"]), c.A.A[a1] != c.x)))
    def post(self, ex, c, st, ret): return [("found exactly if it is one of the names", ze(ret) == c.A.I[c.x])]
    def apply(self, ex, func, st, av, rt):
        x = text(ex, func, st, av[1]); r, A, n = cur(ex, st, av[0])
        for l in (ex.case.A, getattr(ex.case, "B", None)):
            if l is not None and av[0].r is l.p.r and z3.eq(A, l.A) and z3.eq(z3.simplify(n), z3.simplify(l.n)): return [(st, l.I[x])]
        h = fresh("found", z3.BoolSort()); st.assume(h == within(A, n, x)); return [(st, h)]
FIND = Find()
class Add(V):
    name = f"Varset::addVar({S} const&)"; title = "Varset::addVar"; uses = (FIND,)
    def setup(self, ex): st = State(); A = names(ex, st, "these names"); p, x = name(ex, st); yield Case("", st, [A.p, p], A=A, x=x)
    def post(self, ex, c, st, ret):
        r, R, m = cur(ex, st, c.A.p); n = c.A.n
        return [("one more exactly if it was not there", m == z3.If(c.A.I[c.x], n, n + 1)), ("the others stay in place", forall([a1], z3.Implies(z3.And(0 <= a1, a1 < n), R[a1] == c.A.A[a1]))), ("the new one is last", z3.Implies(m > n, R[n] == c.x)), ("no name twice", nodup(R, m))]
    def apply(self, ex, func, st, av, rt):
        x = text(ex, func, st, av[1]); r, A, n = cur(ex, st, av[0]); out = []; h = FIND.apply(ex, func, st, av, rt)[0][1]
        for s, hit in ex.branch(st, h):
            if not hit: N = z3.Store(A, n, x); s.mem[(r.id, 0)] = N; s.writes.append((r, 0, None, N)); e = stl.g(s, av[0], 8); stl.s(s, av[0], 8, Ptr(e.r, e.off.add(Lin(32))))
            out.append((s, None))
        return out
ADD = Add()
class Empty(V):
    name = "Varset::empty() const"; title = "Varset::empty"; two = sret = False
    def post(self, ex, c, st, ret): return [("empty exactly without a name", ze(ret) == (c.A.n == 0))]
class Size(Empty):
    name = "Varset::getVarsetSize() const"; title = "Varset::getVarsetSize"
    def post(self, ex, c, st, ret): return [("the number of names", ze(ex.S(st, ret)) == c.A.n)]
class One(V):
    name = f"Varset::Varset({S} const&)"; title = "Varset(name)"; uses = (ADD,)
    def setup(self, ex): st = State(); p, x = name(ex, st); o = Region("result", "obj"); yield Case("", st, [Ptr(o), p], A=None, out=o, x=x)
    def post(self, ex, c, st, ret): r, R, m = cur(ex, st, Ptr(c.out)); return [("just this name", z3.And(m == 1, R[0] == c.x))]
def chosen(c, keep):
    """the names of c.A that keep() takes, in their order"""
    A, n = c.A.A, c.A.n
    return [("only names chosen", lambda R, m, it: forall([a1], z3.Implies(z3.And(0 <= a1, a1 < m), z3.And(keep(R[a1]), exists([d1], z3.And(0 <= d1, d1 < it, A[d1] == R[a1])))))),
            ("every name chosen", lambda R, m, it: forall([b1], z3.Implies(z3.And(0 <= b1, b1 < it, keep(A[b1])), within(R, m, A[b1])))),
            ("no name twice", lambda R, m, it: nodup(R, m)), ("in the order of first occurrence", lambda R, m, it: first_order(R, z3.IntVal(0), m, A, n))]
class Build(V):
    uses = (ADD, FIND)
    def facts(self, c): raise NotImplementedError
    def gen(self, ex, c, L):
        for (o, r) in self.vec(c, L):
            m = lambda v, o=o, r=r: ze(vsize(v, o, r))
            yield "not too far", lambda v: v["it"] <= self.over(c).n
            yield "not too long", lambda v, m=m: z3.And(m(v) >= 0, m(v) <= v["it"] + (c.A.n if self.grows else 0))
            for nm, f in self.facts(c): yield nm, lambda v, f=f, m=m, r=r: f(v.arr(r), m(v), v["it"])
    def over(self, c): return c.A
    def res(self, c): return Ptr(c.out)
    def post(self, ex, c, st, ret): r, R, m = cur(ex, st, self.res(c)); return [(nm, f(R, m, self.over(c).n)) for nm, f in self.facts(c)] + self.more(c, R, m)
    def more(self, c, R, m): return []
class List(Build):
    name = f"Varset::Varset(std::vector<{S}, std::allocator<{S} > > const&)"; title = "Varset(list)"
    def setup(self, ex): st = State(); A = names(ex, st, "a list", False); o = Region("result", "obj"); yield Case("", st, [Ptr(o), A.p], A=A, B=None, out=o)
    def facts(self, c): return chosen(c, lambda x: z3.BoolVal(True))
class Inter(Build):
    name = "Varset::operator*(Varset const&) const"; title = "Varset::operator*"
    def facts(self, c): return chosen(c, lambda x: c.B.I[x])
class Minus(Build):
    name = "Varset::operator-(Varset const&) const"; title = "Varset::operator-"
    def facts(self, c): return chosen(c, lambda x: z3.Not(c.B.I[x]))
class Union(Build):
    name = "Varset::operator+(Varset const&) const"; title = "Varset::operator+"; grows = True
    def over(self, c): return c.B
    def facts(self, c):
        A, n, B = c.A.A, c.A.n, c.B.A
        return [("these names first", lambda R, m, it: z3.And(m >= n, forall([a1], z3.Implies(z3.And(0 <= a1, a1 < n), R[a1] == A[a1])))), ("then only those names", lambda R, m, it: forall([a1], z3.Implies(z3.And(n <= a1, a1 < m), exists([d1], z3.And(0 <= d1, d1 < it, B[d1] == R[a1]))))),
                ("all of those names", lambda R, m, it: forall([b1], z3.Implies(z3.And(0 <= b1, b1 < it), within(R, m, B[b1])))), ("no name twice", lambda R, m, it: nodup(R, m)), ("the new ones in the order of first occurrence", lambda R, m, it: first_order(R, n, m, B, c.B.n))]
class UnionTo(Union):
    name = "Varset::operator+=(Varset const&)"; title = "Varset::operator+="; sret = False
    def res(self, c): return c.A.p
class Sub(V):
    name = "Varset::belongTo(Varset const&) const"; title = "Varset::belongTo"; sret = False; uses = (FIND,)
    def gen(self, ex, c, L): yield "all so far", lambda v: z3.And(v["it"] <= c.A.n, forall([a1], z3.Implies(z3.And(0 <= a1, a1 < v["it"]), c.B.I[c.A.A[a1]])))
    def all(self, c): return forall([a1], z3.Implies(z3.And(0 <= a1, a1 < c.A.n), c.B.I[c.A.A[a1]]))
    def post(self, ex, c, st, ret): return [("contained exactly if every name is one of the others", ze(ret) == self.all(c))]
def injective(f, n, m): return z3.And(forall([a1], z3.Implies(z3.And(0 <= a1, a1 < n), z3.And(0 <= f[a1], f[a1] < m))), forall([a1, b1], z3.Implies(z3.And(0 <= a1, a1 < b1, b1 < n), f[a1] != f[b1])))
class Equal(Sub):
    name = "Varset::operator==(Varset const&) const"; title = "Varset::operator=="
    def post(self, ex, c, st, ret):
        n, m, A, B = c.A.n, c.B.n, c.A.A, c.B.A; k = fresh("k"); f, p = fresh("f", int_arr()), fresh("p"); lam = lambda body: z3.Lambda([x1], body); ps = [("equal exactly if as many and every name is one of the others", ze(ret) == z3.And(n == m, self.all(c)))]
        # as many, without repetition, and contained is equality of sets: no injective map from k + 1 places to k (induction on k: base, step), and a set that were different would give one
        ps += [("lemma: no map from one place to none", z3.Not(injective(f, 1, 0))), ("lemma: an injective map from k + 1 places to k gives one from k to k - 1", z3.Implies(z3.And(k >= 1, injective(f, k + 1, k)), injective(lam(z3.If(f[x1] == k - 1, f[k], f[x1])), k, k - 1)))]
        at = lambda f, n, X, Y, m: forall([a1], z3.Implies(z3.And(0 <= a1, a1 < n), z3.And(0 <= f[a1], f[a1] < m, Y[f[a1]] == X[a1])))
        ps += [("lemma: as many, contained, yet different gives an injective map from n + 1 places to n", z3.Implies(z3.And(n == m, at(f, n, A, B, m), 0 <= p, p < m, z3.Not(c.A.I[B[p]])), injective(lam(z3.If(x1 == n, p, f[x1])), n + 1, n))),
               ("lemma: contained, yet fewer others, gives one too", z3.Implies(z3.And(n > m, at(f, n, A, B, m)), injective(f, m + 1, m)))]
        return ps
class Common(V):
    name = "Varset::hasCommonVar(Varset const&) const"; title = "Varset::hasCommonVar"; sret = False; uses = (FIND,)
    def gen(self, ex, c, L): yield "none so far", lambda v: z3.And(v["it"] <= c.A.n, forall([a1], z3.Implies(z3.And(0 <= a1, a1 < v["it"]), z3.Not(c.B.I[c.A.A[a1]]))))
    def post(self, ex, c, st, ret): return [("there is a common name exactly if one of these is one of the others", ze(ret) == exists([a1], z3.And(0 <= a1, a1 < c.A.n, c.B.I[c.A.A[a1]])))]
class Map(V):
    name = "Varset::mapTo(Varset const&) const"; title = "Varset::mapTo"
    def place(self, c, R, k, m): return z3.Or(z3.And(R[k] == -1, forall([b1], z3.Implies(z3.And(0 <= b1, b1 < m), c.B.A[b1] != c.A.A[k]))), z3.And(0 <= R[k], R[k] < m, c.B.A[R[k]] == c.A.A[k]))
    def gen(self, ex, c, L):
        for o, r in vec_objs(L):
            if r.stride != 4: continue
            r.signed.add(0); m = lambda v, o=o, r=r: ze(vsize(v, o, r)); R = lambda v, r=r: v.arr(r)
            yield "one entry for each so far", lambda v, m=m: z3.And(m(v) == v["it"], v["it"] <= c.A.n)
            yield "places so far", lambda v, m=m, R=R: forall([a1], z3.Implies(z3.And(0 <= a1, a1 < m(v)), self.place(c, R(v), a1, c.B.n)))
            yield "not past the others", lambda v: v["it"] <= c.B.n
            yield "earlier places", lambda v, m=m, R=R: forall([a1], z3.Implies(z3.And(0 <= a1, a1 < m(v) - 1), self.place(c, R(v), a1, c.B.n)))
            yield "this place so far", lambda v, m=m, R=R: z3.And(m(v) >= 1, self.place(c, R(v), m(v) - 1, v["it"]))
    def post(self, ex, c, st, ret):
        r, R, m = cur(ex, st, Ptr(c.out), 4); k = fresh("k"); return [("one entry for each name", m == c.A.n), ("the place of the name in the other list, or none", z3.Implies(z3.And(0 <= k, k < m), self.place(c, R, k, c.B.n)))]
FUNCS = [FIND, ADD, Empty(), Size(), One(), List(), Union(), UnionTo(), Inter(), Minus(), Equal(), Common(), Sub(), Map()]
HARNESS = {"src": "C09.cpp", "tus": ["Query/Varset.cpp", "Util/Util.cpp"], "secs": 10}
ASSUMPTIONS = ["std::string: copies have the text of their original, operator== compares texts (a name is its text)", "std::vector<std::string>: the model of gvc/stl.py", "fewer than 2^31 - 1 names; the lists of the operands hold no name twice (proved of every list the operations make; the member is public)", "the pigeonhole principle follows from its base and step by induction on the natural numbers"]
BOUNDED = ["Varset::print: not examined"]
