"""C17: ordered lists of top-k queries.  A list yields a sequence of answers: HAS(l, i) says that list l has an i-th one and
CST(l, i) is its score.  The heaps inside are used through the contract the heap has (C14): a state with a minimal element."""
import re, os
from spec import *
from ir import Ty
from symex import FV
ID = "C17"
INST = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/inst/C17.cpp"
TUS = ["Query/topk/DPB/OrderedList.cpp", "Query/topk/DPB/DynamicTrie.cpp", INST]
_off = {}
def off(ex, nm):
    if nm not in _off:
        for m in ex.mods:
            for x, d in m.globals.items():
                if x.lstrip("@").strip('"') == "gvc_off_" + nm:
                    k = re.search(r"constant i64 (\d+)", str(d))
                    if k: _off[nm] = int(k.group(1))
    return _off[nm]
I32, DBL = Ty("i", 32), Ty("double")
I = z3.IntSort()
HAS, CST = z3.Function("HAS", I, I, z3.BoolSort()), z3.Function("CST", I, I, I)      # of a list and a place
NODE, IDX, COST = (z3.Function(n, I, I) for n in ("el_node", "el_index", "el_cost"))   # of an element (an opaque name)
EL = z3.Function("element", I, I, I, I)
SHARED = r"std::shared_ptr<OrderedList>::"
def leaves(ex):
    l = OPT["elem_leaves"]["DPB::element"] = [(off(ex, "node"), I32), (off(ex, "index"), I32), (off(ex, "cost"), DBL)]
    return l
def elvec(ex, st, o, nm, n):
    """a std::vector<DPB::element> at offset 8 of object o"""
    r = Region(nm, "arr", stride=16); r.pre = True; r.isvec = True
    for f, t in leaves(ex): r.slotw[f] = 8 if t is DBL else 4
    r.tl = leaves(ex); P = off(ex, "pool"); set_vector(o, P, r, n, 16); return r
def elem_at(ex, st, p): return tuple(ex.load(st, None, t, Ptr(p.r, p.off.add(Lin(o)), p.key)) if False else ld(ex, st, t, p, o) for o, t in leaves(ex))
def ld(ex, st, t, p, o): return ex.load(st, _F(ex), t, Ptr(p.r, p.off.add(Lin(o)), p.key))
class _F:
    """the module whose type sizes are used for loads made by a contract"""
    def __init__(self, ex): self.mod = ex.mods[0]
def num(ex, st, v): return v.e if isinstance(v, FV) else ze(ex.U(st, v))
def elem(ex, st, p): n, i, c = (num(ex, st, v) for v in elem_at(ex, st, p)); return n, i, c
def pool(ex, st, o):
    P = off(ex, "pool"); p = Ptr(o); r, n = vec_size(ex, st, Ptr(o, Lin(P)), 16)
    return r, ze(n), [ex.arr_of(st, r, f) for f, _ in leaves(ex)]
OPT = {"fp": "numbers", "elem": {"DPB::element": 16, "std::shared_ptr<OrderedList>": 16, "DPB::FqElement": 32}, "elem_leaves": {}}
# shared pointers: a copy points to the same list; counting references has no effect on the lists
def sp_copy(ex, func, st, dn, av, rt):
    d, s = av[0], av[1]; v = ex.load(st, func, Ty("ptr"), s); ex.store(st, func, Ty("ptr"), v, d); return [(st, None)]
def unit(ex, func, st, dn, av, rt): return [(st, None)]
SP = [(re.compile("^" + SHARED + r"shared_ptr\(std::shared_ptr<OrderedList> const&\)$"), sp_copy), (re.compile("^" + SHARED + r"~shared_ptr\(\)$"), unit)]
def spobj(nm, p): o = Region(nm, "obj"); o.pre = True; o.init[0] = p; o.slotw[0] = 8; o.init[8] = NULL; o.slotw[8] = 8; return Ptr(o)

# ---- the two static helpers of FR and FQ
class Next(Contract):
    cls = ""; opt = OPT; budget = 60
    def setup(self, ex):
        st = State(); n = fresh("n"); st.assume(z3.And(n >= 0, n < 1 << 31)); o = Region("list", "obj"); o.pre = True; vt = Region("vtable", "obj"); vt.pre = True
        for k in range(8): vt.init[8 * k] = FnPtr("gvc_virtual_TryGetNext" if k == self.slot(ex) else "gvc_virtual_other"); vt.slotw[8 * k] = 8
        o.init[0] = Ptr(vt); o.slotw[0] = 8; elvec(ex, st, o, "pool", n); k, i = u32(ex, st, "k"), u32(ex, st, "index"); ch = fresh("list"); st.assume(ze(i.e) <= n)
        st.assume(forall([q1], z3.Implies(z3.And(0 <= q1, q1 < n), HAS(ch, q1))))
        yield Case("", st, [k, spobj("sp", Ptr(o)), i], o=o, n=n, i=ze(i.e), ch=ch)
    def slot(self, ex):
        """place of TryGetNext in the virtual table, read from the table of a list class"""
        for m in ex.mods:
            for x, d in m.globals.items():
                if x.strip('"@') == "_ZTV10OWIterator":
                    l = re.findall(r"ptr (null|@[\w.$]+)", d); names = [ex.demangle(y[1:]) for y in l if y != "null"]
                    v = [i for i, y in enumerate(names) if y.startswith("OWIterator::TryGetNext")]
                    if v: return v[0] - 1        # the first entry is the type information
        raise Unsupported("virtual table")
    def grow(ex, func, st, dn, av, rt):
        """contract of every list: the next answer is added, if there is one"""
        c = ex.case
        if av[0].r is not c.o: raise Unsupported("another list")
        r, n, arrs = pool(ex, st, c.o); out = []
        for s2, more in ex.branch(st, HAS(c.ch, n)):
            if more:
                P = off(ex, "pool"); p = slot(ex, s2, Ptr(c.o), P + 8); e = Ptr(r, p.off.add(Lin(16))); s2.mem[(c.o.id, P + 8)] = e; s2.writes.append((c.o, P + 8, None, e))
                for f, t in leaves(ex):
                    a = z3.Store(ex.arr_of(s2, r, f), n, fresh("next")); s2.mem[(r.id, f)] = a; s2.writes.append((r, f, None, a))
            out.append((s2, None))
        return out
    models = SP + [(re.compile("^gvc_virtual_TryGetNext$"), grow)]
    def post(self, ex, c, st, ret):
        r, n, a = pool(ex, st, c.o); return [("says whether the list has that answer", ze(ret) == HAS(c.ch, c.i)), ("and then the answer is there", z3.Implies(ze(ret), c.i < n)), ("nothing is taken away", z3.And(n >= c.n, n <= c.n + 1)), ("an answer that is there already is not asked for again", z3.Implies(c.i < c.n, n == c.n))]
    def apply(self, ex, func, st, av, rt):
        l = ex.load(st, func, Ty("ptr"), av[1])
        if l.r is not ex.case.lists: raise Unsupported("another list")
        i = ze(ex.U(st, av[2])); ex.oblige(st, z3.Implies(i > 0, HAS(l.key, i - 1)), f"{self.title}: answers are asked for one after the other", "pre"); return [(st, HAS(l.key, i))]
class Delta(Contract):
    cls = ""; opt = OPT; budget = 60; models = SP
    def setup(self, ex):
        st = State(); n = fresh("n"); st.assume(z3.And(n >= 0, n < 1 << 31)); o = Region("list", "obj"); o.pre = True; r = elvec(ex, st, o, "pool", n); i = i32(ex, st, "index"); st.assume(z3.And(ze(i.e) >= 1, ze(i.e) < n))
        yield Case("", st, [spobj("sp", Ptr(o)), i], i=ze(i.e), c=ex.arr_of(st, r, off(ex, "cost")), o=o, n=n)
    def post(self, ex, c, st, ret): return [("the distance of two neighbouring scores", ret.e == c.c[c.i] - c.c[c.i - 1]), ("nothing is changed", z3.And(pool(ex, st, c.o)[1] == c.n, pool(ex, st, c.o)[2][2] == c.c))]
    def apply(self, ex, func, st, av, rt):
        l = ex.load(st, func, Ty("ptr"), av[0])
        if l.r is not ex.case.lists: raise Unsupported("another list")
        i = ze(ex.U(st, av[1])); ex.oblige(st, z3.And(i >= 1, HAS(l.key, i)), f"{self.title}: both answers are there", "pre"); return [(st, FV("double", CST(l.key, i) - CST(l.key, i - 1)))]
def mk(cls, c, nm): return type(c + cls.__name__, (cls,), {"cls": c, "name": f"{c}::{nm}", "title": f"{c}::" + nm.split("(")[0]})()
FRN, FQN = mk(Next, "FRIterator", "NextEPoolElement(unsigned int, std::shared_ptr<OrderedList>, unsigned int)"), mk(Next, "FQIterator", "NextEPoolElement(unsigned int, std::shared_ptr<OrderedList>, unsigned int)")
FRD, FQD = mk(Delta, "FRIterator", "DeltaCost(std::shared_ptr<OrderedList>, int)"), mk(Delta, "FQIterator", "DeltaCost(std::shared_ptr<OrderedList>, int)")

# ---- leaf lists
class Leaf(Contract):
    opt = OPT; budget = 120; scored = False
    def setup(self, ex):
        st = State(); n = fresh("n"); st.assume(z3.And(n >= 0, n < 1 << 31)); o = Region("ow", "obj"); o.pre = True; r = elvec(ex, st, o, "pool", 0); p, ri = vector(ex, st, "ids", n); a = ex.arr_of(st, ri, 0); st.assume(ranged(a, n)); args = [Ptr(o), p]; s = None
        if self.scored: ps, rs = vector(ex, st, "scores", n, 8); s = ex.arr_of(st, rs, 0); args.append(ps)
        st.mem[("ghost", "perm")] = fresh("perm", int_arr()); st.mem[("ghost", "ranks")] = z3.IntVal(0)
        yield Case("", st, args, o=o, n=n, a=a, s=s)
    def gen(self, ex, c, L):
        i = [x for x in L.vars if x.kind == "int"]; out = []
        if not i: return out
        P = lambda w: pool(ex, w.st, c.o)
        src = lambda w, j: (c.a[j], z3.IntVal(0)) if not self.scored else (lambda pi: (c.a[pi[j]], c.s[pi[j]]))(w.st.mem[("ghost", "perm")])
        for x in i:
            out.append(("as many as came by", lambda w, x=x: P(w)[1] == w[x])); out.append(("not too far", lambda w, x=x: z3.And(w[x] >= 0, w[x] <= c.n)))
            out.append(("the elements so far", lambda w, x=x: forall([q1], z3.Implies(z3.And(0 <= q1, q1 < w[x]), z3.And(P(w)[2][0][q1] == src(w, q1)[0], P(w)[2][1][q1] == q1, P(w)[2][2][q1] == src(w, q1)[1])))))
            rv = getattr(c, "ranks", None)
            if rv is not None:
                out.append(("collected", lambda w, x=x: vsize(w, (rv[0], rv[1]), rv[2]) == w[x]))
                out.append(("collected: contents", lambda w, x=x: forall([q1], z3.Implies(z3.And(0 <= q1, q1 < w[x]), z3.And(w.arr(rv[2], 0)[q1] == c.a[q1], w.arr(rv[2], 8)[q1] == c.s[q1])))))
        return out
    def post(self, ex, c, st, ret):
        r, n, (no, ix, co) = pool(ex, st, c.o); rng = lambda v, b: forall(v, z3.Implies(z3.And(0 <= v[0], v[-1] < c.n, *([v[0] < v[1]] if len(v) > 1 else [])), b)); pi = st.mem[("ghost", "perm")] if self.scored else None
        at = (lambda j: pi[j]) if self.scored else (lambda j: j)
        ps = [("one element for every entry", n == c.n), ("the places are numbered", rng([q1], ix[q1] == q1)), ("every element is an entry with its score", rng([q1], z3.And(no[q1] == c.a[at(q1)], co[q1] == (c.s[at(q1)] if self.scored else 0)))), ("scores ascend", rng([q1, q2], co[q1] <= co[q2]))]
        if self.scored: ps.append(("every entry once", z3.And(rng([q1], z3.And(0 <= pi[q1], pi[q1] < c.n)), rng([q1, q2], pi[q1] != pi[q2]))))
        return ps
RK = r"^(void )?std::(vector|_Vector_base)<OWIterator::Insert\(.*\)::ScorePair, .*>::"
def rk_ctor(ex, func, st, dn, av, rt):
    p = av[0]; r = Region("ranks", "arr", stride=16); r.isvec = True; r.slotw[0] = 4; r.slotw[8] = 8; r.tl = [(0, I32), (8, DBL)]; r.vecobj = (p.r, p.off.c)
    for k in (0, 8, 16): ex.store(st, func, Ty("ptr"), Ptr(r), Ptr(p.r, p.off.add(Lin(k))))
    ex.case.ranks = (p.r, p.off.c, r); return [(st, None)]
def rk_push(ex, func, st, dn, av, rt):
    p, s = av[0], av[1]; e = slot(ex, st, p, 8); sv = ex.safety
    vs = [(o, t, ex.load(st, func, t, Ptr(s.r, s.off.add(Lin(o))))) for o, t in ((0, I32), (8, DBL))]; ex.safety = False
    for o, t, v in vs: ex.store(st, func, t, v, Ptr(e.r, e.off.add(Lin(o))))
    ex.safety = sv; ex.store(st, func, Ty("ptr"), Ptr(e.r, e.off.add(Lin(16))), Ptr(p.r, p.off.add(Lin(8)))); return [(st, None)]
def rk_sort(ex, func, st, dn, av, rt):
    """std::sort: a permutation of the range, ascending for operator< (proved to compare the scores)"""
    f, l = av[0], av[1]; r = f.r
    if r is not l.r or not (f.off.isconst() and f.off.c == 0): raise Unsupported("sort of a part")
    n = ze(l.off.divmod(16)[0]); ids, sc = ex.arr_of(st, r, 0), ex.arr_of(st, r, 8); a, b, pi, inv = (fresh(x, int_arr()) for x in ("sid", "ssc", "perm", "inv"))
    st.assume(forall([q1], z3.Implies(z3.And(0 <= q1, q1 < n), z3.And(0 <= pi[q1], pi[q1] < n, a[q1] == ids[pi[q1]], b[q1] == sc[pi[q1]], inv[pi[q1]] == q1))))
    st.assume(forall([q1, q2], z3.Implies(z3.And(0 <= q1, q1 < q2, q2 < n), b[q1] <= b[q2])))
    for o, v in ((0, a), (8, b)): st.mem[(r.id, o)] = v; st.writes.append((r, o, None, v))
    st.mem[("ghost", "perm")] = pi; return [(st, None)]
RKM = [(re.compile(RK + r"(vector|~vector|reserve|push_back|_Vector_base)\("), lambda ex, func, st, dn, av, rt: rk_ctor(ex, func, st, dn, av, rt) if re.search(r">::vector\(\)", dn) else rk_push(ex, func, st, dn, av, rt) if ">::push_back(" in dn else [(st, None)]),
       (re.compile(r"^void std::sort<__gnu_cxx::__normal_iterator<OWIterator::Insert\(.*\)::ScorePair\*"), rk_sort)]
class Leaf0(Leaf): name = "OWIterator::Insert(std::vector<unsigned int, std::allocator<unsigned int> > const&)"; title = "OWIterator::Insert(ids)"
class Leaf1(Leaf): name = "OWIterator::Insert(std::vector<unsigned int, std::allocator<unsigned int> > const&, std::vector<double, std::allocator<double> > const&)"; title = "OWIterator::Insert(ids, scores)"; scored = True; models = RKM
class Less(Contract):
    name = "OWIterator::Insert(std::vector<unsigned int, std::allocator<unsigned int> > const&, std::vector<double, std::allocator<double> > const&)::ScorePair::operator<(ScorePair const&) const"; title = "OWIterator::Insert: order of the entries"; opt = OPT
    def setup(self, ex):
        st = State(); o, p = Region("a", "obj"), Region("b", "obj"); v = []
        for r in (o, p): r.pre = True; r.init[8] = FV("double", fresh("score")); r.slotw[8] = 8; v.append(r.init[8].e)
        yield Case("", st, [Ptr(o), Ptr(p)], v=v)
    def post(self, ex, c, st, ret): return [("smaller score first", ze(ret) == (c.v[0] < c.v[1]))]

# ---- a list that merges the lists of its nodes
QN = r"^minmax::MinMaxHeap<DPB::%s, .*>::(empty|findMin|popMin|push)\("
CNT, MINE, SIZE = z3.Function("holds", I, I, I), z3.Function("min_of", I, I), z3.Function("heap_size", I, I)       # of a heap state (an opaque name)
def hp(st): return st.mem[("ghost", "heap")]
def heap_facts(h): return [SIZE(h) >= 0, z3.Implies(SIZE(h) > 0, CNT(h, MINE(h)) > 0), forall([q1], z3.Implies(CNT(h, q1) > 0, z3.And(SIZE(h) > 0, COST(MINE(h)) <= COST(q1)))), forall([q1], CNT(h, q1) >= 0)]
def new_heap(st, h0, e, d):
    h = fresh("heap"); st.assume(SIZE(h) == SIZE(h0) + d); st.assume(forall([q1], CNT(h, q1) == CNT(h0, q1) + z3.If(q1 == e, d, 0)))
    for f in heap_facts(h): st.assume(f)
    st.mem[("ghost", "heap")] = h
def name_of(n, i, k):
    e = EL(n, i, k); return e, [NODE(e) == n, IDX(e) == i, COST(e) == k]
def m_heap(ex, func, st, dn, av, rt):
    c = ex.case; p = av[0]; op = re.search(r">::(empty|findMin|popMin|push)\(", dn).group(1)
    if p.r is not c.o or not p.off.isconst() or p.off.c != off(ex, "frq"): raise Unsupported("another heap")
    h = hp(st)
    if op == "empty": return [(st, SIZE(h) == 0)]
    if op == "push":
        e, f = name_of(*elem(ex, st, av[1])); [st.assume(x) for x in f]; new_heap(st, h, e, 1); return [(st, None)]
    ex.oblige(st, SIZE(h) > 0, op + " of a heap that is not empty", "pre"); m = MINE(h)
    st.assume(m == EL(NODE(m), IDX(m), COST(m))); st.assume(z3.And(NODE(m) >= 0, NODE(m) < 1 << 32, IDX(m) >= 0, IDX(m) < 1 << 32))
    if op == "popMin":
        new_heap(st, h, m, -1); return [(st, AV([ex.fresh_int(64, "min", st=st), FV("double", COST(m))]) if rt.k != "void" else None)]
    r = Region("min", "obj"); r.pre = True; N, X, C = (off(ex, k) for k in ("node", "index", "cost")); r.init[N] = IV(32, NODE(m), 0, (1 << 32) - 1); r.init[X] = IV(32, IDX(m), 0, (1 << 32) - 1); r.init[C] = FV("double", COST(m)); r.slotw.update({N: 4, X: 4, C: 8}); r.tl = leaves(ex)
    return [(st, Ptr(r))]
LOF = z3.Function("list_of", I, I)
def m_map(ex, func, st, dn, av, rt):
    c = ex.case
    if av[0].r is not c.o or av[0].off.c != off(ex, "frmap"): raise Unsupported("another map")
    k = ze(ex.U(st, ex.load(st, func, I32, av[1]))); ex.oblige(st, c.known(k), "only nodes that were inserted are looked up", "pre"); return [(st, spobj("entry", Ptr(c.lists, Lin(0), LOF(k))))]
class Merge(Contract):
    name = "FRIterator::TryGetNext(unsigned int)"; title = "FRIterator::TryGetNext"; opt = OPT; uses = (FRN, FRD); budget = 120
    models = SP + [(re.compile(QN % "element"), m_heap), (re.compile(r"^std::map<unsigned int, std::shared_ptr<OrderedList>, .*>::operator\[\]\(unsigned int const&\)$"), m_map)]
    def setup(self, ex):
        st = State(); n = fresh("n"); st.assume(z3.And(n >= 0, n < 1 << 31)); o = Region("fr", "obj"); o.pre = True; r = elvec(ex, st, o, "pool", n); lists = Region("lists", "fam"); lists.pre = True; h = fresh("heap"); st.mem[("ghost", "heap")] = h
        for f in heap_facts(h): st.assume(f)
        a = [ex.arr_of(st, r, f) for f, _ in leaves(ex)]; kn = z3.Function("inserted", I, z3.BoolSort()); m = MINE(h)
        last, f = name_of(a[0][n - 1], a[1][n - 1], a[2][n - 1]); [st.assume(x) for x in f]
        # what insertion and earlier calls leave behind: the heap holds one reached answer of every inserted list, and its smallest one is the last given out
        st.assume(z3.Implies(z3.And(n > 0, SIZE(h) > 0), last == m))
        st.assume(forall([q1], z3.Implies(CNT(h, q1) > 0, z3.And(q1 == EL(NODE(q1), IDX(q1), COST(q1)), kn(NODE(q1)), HAS(LOF(NODE(q1)), IDX(q1)), IDX(q1) < 1 << 30, COST(q1) == CST(LOF(NODE(q1)), IDX(q1)))))); st.assume(forall([q1], LOF(q1) > 0))
        st.assume(forall([q1, q2], z3.Implies(z3.And(q2 >= 0, HAS(q1, q2 + 1)), CST(q1, q2) <= CST(q1, q2 + 1)))); st.assume(forall([q1], z3.Implies(z3.And(0 <= q1, q1 < n), z3.And(a[0][q1] >= 0, a[0][q1] < 1 << 32, a[1][q1] >= 0, a[1][q1] < 1 << 32))))
        k = u32(ex, st, "k"); yield Case("", st, [Ptr(o), k], o=o, n=n, a=a, h=h, lists=lists, known=kn)
    def post(self, ex, c, st, ret):
        r, n, a = pool(ex, st, c.o); h = hp(st); m0 = MINE(c.h); L = LOF(NODE(m0)); i1 = IDX(m0) + 1; nx, f = name_of(NODE(m0), i1, CST(L, i1))
        for x in f: st.assume(x)
        k = c.n; isel = lambda e: z3.And(a[0][k] == NODE(e), a[1][k] == IDX(e), a[2][k] == COST(e)); later = z3.And(c.n > 0, SIZE(c.h) > 0); more = HAS(L, i1)
        return [("answers given out stay as they are", z3.And(n >= c.n, forall([q1], z3.Implies(z3.And(0 <= q1, q1 < c.n), z3.And([x[q1] == y[q1] for x, y in zip(a, c.a)]))))),
                ("nothing left: nothing happens", z3.Implies(SIZE(c.h) == 0, z3.And(n == c.n, h == c.h))),
                ("the first answer is the smallest", z3.Implies(z3.And(c.n == 0, SIZE(c.h) > 0), z3.And(n == 1, isel(m0), h == c.h))),
                ("the answer given out last makes room for its successor, nothing else is lost or added", z3.Implies(later, forall([q1], CNT(h, q1) == CNT(c.h, q1) - z3.If(q1 == m0, 1, 0) + z3.If(z3.And(more, q1 == nx), 1, 0)))),
                ("the next answer is the smallest that is left", z3.Implies(later, z3.And(n == c.n + z3.If(SIZE(h) > 0, 1, 0), z3.Implies(n > c.n, isel(MINE(h)))))),
                ("scores ascend", z3.Implies(z3.And(later, n > c.n), a[2][c.n - 1] <= a[2][c.n]))]

# ---- duplicate suppression
LEAF = z3.Function("leaf_of", I, I)
class Ins(Contract):
    """not proved here (a tree of vectors): the entry of a combination; new ones count its parents"""
    name = "DPB::DynamicTrie::insert(std::vector<unsigned int, std::allocator<unsigned int> > const&)"; title = "DynamicTrie::insert"
    def apply(self, ex, func, st, av, rt): c = ex.case; return [(st, Ptr(c.fam, Lin(0), c.leaf))]
class Detect(Contract):
    name = "DPB::DynamicTrie::detect(std::vector<unsigned int, std::allocator<unsigned int> > const&)"; title = "DynamicTrie::detect"; uses = (Ins(),)
    def setup(self, ex):
        st = State(); f = Region("entries", "fam"); f.pre = True; f.slotw[off(ex, "count")] = 8; l = fresh("leaf"); st.assume(l > 0); o = Region("trie", "obj"); o.pre = True; p, _ = vector(ex, st, "seq", fresh("d")); a = ex.arr_of(st, f, off(ex, "count")); st.assume(z3.And(a[l] >= 1, a[l] < 1 << 63)); yield Case("", st, [Ptr(o), p], fam=f, leaf=l, a=a)
    def post(self, ex, c, st, ret):
        a = ex.arr_of(st, c.fam, off(ex, "count")); return [("one more parent was met", a == z3.Store(c.a, c.leaf, c.a[c.leaf] - 1)), ("says whether it was the last one", ze(ret) == (c.a[c.leaf] == 1))]

FUNCS = [FRN, FQN, FRD, FQD, Leaf0(), Leaf1(), Less(), Merge(), Detect()]
HARNESS = {"src": "C17.cpp", "tus": ["Util/Util.cpp", "Util/Bstr.cpp", "Query/topk/DPB/OrderedList.cpp", "Query/topk/DPB/DynamicTrie.cpp", "Query/topk/DPB/Pool.cpp"], "secs": 15}
ASSUMPTIONS = ["scores are mathematical numbers (sums of doubles are exact, no NaN)", "the heap inside a list behaves as its contract says (proved for int elements in C14; the element types of the lists go through the harness)", "DynamicTrie::insert gives the entry of a combination, and a new entry counts its parents (harness)", "std::sort sorts by the comparator it is given; std::map finds what was inserted; copying a shared_ptr does not change the list it points to",
               "the lists below a node ascend (what this property says of them: induction over the tree)"]
BOUNDED = ["FRIterator::GetResult, FQIterator::GetResult, OWIterator::GetResult, DynamicTrie::insert and whole trees of lists: harness against the brute-force list of combinations"]
