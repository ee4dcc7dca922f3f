"""C01: search in sorted identifier lists and the set operations on them."""
from spec import *

ID = "C01"
TUS = ["Util/Util.cpp", "Query/IDList.cpp"]
INVALID = (1 << 32) - 1
NMAX = 1 << 31

def member(a, n, v): return exists(q4, z3.And(0 <= q4, q4 < ze(n), a[q4] == v))
def notin(a, n, v): return forall(q1, z3.Implies(z3.And(0 <= q1, q1 < ze(n)), a[q1] != v))

def search_gen(A, n, key):
    def gen(L):
        for x in L.vars:
            if x.kind != "int": continue
            for d in (0, 1):
                yield f"below {x.name}+{d} < key", lambda v, x=x, d=d: forall(q1, z3.Implies(z3.And(0 <= q1, q1 < ze(v[x]) + d, q1 < ze(n)), A[q1] < key))
                yield f"above {x.name}-{d} > key", lambda v, x=x, d=d: forall(q1, z3.Implies(z3.And(ze(v[x]) - d < q1, 0 <= q1, q1 < ze(n)), A[q1] > key))
    return gen

class BSearchInt(Contract):
    name = "Util::bsearch_int_uporder(unsigned int, unsigned int const*, unsigned int)"
    title = "Util::bsearch_int_uporder"
    def setup(self, ex):
        st = State(); key = u32(ex, st, "key"); n = u32(ex, st, "n"); st.assume(n.e < NMAX)
        p = array(ex, st, "list", n.e); A = arr0(ex, st, p)
        st.assume(ascending(A, n.e, strict=False))
        yield Case("", st, [key, p, n], A=A, n=n.e, key=key.e)
        st = State(); key = u32(ex, st, "key"); n = u32(ex, st, "n"); st.assume(n.e == 0)
        yield Case("no list", st, [key, NULL, n], A=z3.K(z3.IntSort(), z3.IntVal(0)), n=0, key=key.e)
    def gen(self, ex, c, L): return search_gen(c.A, c.n, c.key)(L)
    def post(self, ex, c, st, ret):
        r = ze(ex.U(st, ret))
        return [("a hit is a position holding the key", z3.Implies(r != INVALID, z3.And(0 <= r, r < ze(c.n), c.A[r] == c.key))),
                ("a miss means the key occurs nowhere", z3.Implies(r == INVALID, notin(c.A, c.n, c.key)))]
    def apply(self, ex, func, st, av, rt):
        key, p, n = ex.U(st, av[0]), av[1], ex.U(st, av[2])
        r = fresh("found")
        if p.r is None: st.assume(r == INVALID); return [(st, IV(32, r, 0, INVALID))]
        q = p.off.divmod(4)
        A = ex.arr_of(st, p.r, q[1]); b = q[0]
        if not (isc(b) and b == 0): raise Unsupported("search in the middle of a list")
        ex.oblige(st, ascending(A, n, strict=False), "list passed to the binary search is ascending", "pre")
        ex.oblige(st, lt(n, NMAX), "list passed to the binary search has fewer than 2^31 elements", "pre")
        st.assume(z3.Or(r == INVALID, z3.And(0 <= r, r < ze(n), A[r] == ze(key))))
        st.assume(z3.Implies(r == INVALID, notin(A, n, ze(key))))
        return [(st, IV(32, r, 0, INVALID))]

class BSearchVec(Contract):
    name = "Util::bsearch_vec_uporder(unsigned int, std::vector<unsigned int, std::allocator<unsigned int> > const*)"
    title = "Util::bsearch_vec_uporder"
    def setup(self, ex):
        st = State(); key = u32(ex, st, "key"); n = u32(ex, st, "n"); st.assume(n.e < NMAX)
        p, r = vector(ex, st, "list", n.e); A = ex.arr_of(st, r, 0)
        st.assume(ascending(A, n.e, strict=False))
        yield Case("", st, [key, p], A=A, n=n.e, key=key.e)
    gen = BSearchInt.gen
    post = BSearchInt.post
    def apply(self, ex, func, st, av, rt):
        key = ex.U(st, av[0]); r, n = vec_size(ex, st, av[1], 4)
        A = ex.arr_of(st, r, 0); f = fresh("found")
        ex.oblige(st, ascending(A, n, strict=False), "list passed to the binary search is ascending", "pre")
        ex.oblige(st, lt(n, NMAX), "list passed to the binary search has fewer than 2^31 elements", "pre")
        st.assume(z3.Or(f == INVALID, z3.And(0 <= f, f < ze(n), A[f] == ze(key))))
        st.assume(z3.Implies(f == INVALID, notin(A, n, ze(key))))
        return [(st, IV(32, f, 0, INVALID))]

class RemoveDup(Contract):
    """schematic: k1<k2 arbitrary positions of the result, i0 an arbitrary position of the input"""
    name = "Util::removeDuplicate(unsigned int*, unsigned int)"
    title = "Util::removeDuplicate"
    def setup(self, ex):
        st = State(); n = u32(ex, st, "n"); st.assume(n.e < NMAX)
        p = array(ex, st, "list", n.e); A = arr0(ex, st, p)
        st.assume(ascending(A, n.e, strict=False))
        k1, k2, i0 = fresh("k1"), fresh("k2"), fresh("i0")
        st.assume(z3.And(0 <= k1, k1 < k2, 0 <= i0, i0 < n.e))
        yield Case("", st, [p, n], A=A, n=n.e, p=p, k1=k1, k2=k2, i0=i0)
    def gen(self, ex, c, L):
        ints = [x for x in L.vars if x.kind == "int"]
        for o in ints:
            for i in ints:
                if o is i: continue
                R = lambda v: v.arr(c.p.r)
                yield f"out<{o.name}|{i.name}", lambda v, o=o, i=i: z3.Implies(c.k1 < v[o], z3.And(R(v)[c.k1] < c.A[ze(v[i])], 0 <= c.k1))
                yield f"out<{o.name}|{i.name}b", lambda v, o=o, i=i: z3.Implies(c.k2 < v[o], z3.And(R(v)[c.k2] < c.A[ze(v[i])]))
                yield f"asc{o.name}", lambda v, o=o: z3.Implies(c.k2 < v[o], R(v)[c.k1] < R(v)[c.k2])
                yield f"keep{o.name}|{i.name}", lambda v, o=o, i=i: z3.Implies(c.i0 < v[i], z3.Or(c.A[c.i0] == c.A[ze(v[i])], exists(q4, z3.And(0 <= q4, q4 < ze(v[o]), R(v)[q4] == c.A[c.i0]))))
                yield f"from{o.name}|{i.name}", lambda v, o=o, i=i: z3.Implies(c.k1 < v[o], exists(q4, z3.And(0 <= q4, q4 < ze(v[i]), R(v)[c.k1] == c.A[q4])))
    def post(self, ex, c, st, ret):
        r = ze(ex.U(st, ret)); R = ex.arr_of(st, c.p.r, 0)
        return [("result no longer than the input", z3.And(r <= c.n, r >= 0)),
                ("result strictly ascending", z3.Implies(c.k2 < r, R[c.k1] < R[c.k2])),
                ("every result element comes from the input", z3.Implies(c.k1 < r, member(c.A, c.n, R[c.k1]))),
                ("every input element is kept once", exists(q4, z3.And(0 <= q4, q4 < r, R[q4] == c.A[c.i0])))]

def resgen(c, L, R, sizes, lists):
    """candidates shared by the merge loops.  R(v): result array; sizes(v): result length;
       lists: [(array, length expr)].  k1<k2 and i0/j0 are schematic."""
    A, B = lists[0][0], lists[1][0]
    n, m = lists[0][1], lists[1][1]
    k1, k2, i0, j0 = c.k1, c.k2, c.i0, c.j0
    ints = L.idx
    two = (("A", A, n, i0), ("B", B, m, j0))
    for nm, X, N, z in two:
        for nm2, Y, M, w in two:
            if nm == nm2: continue
            for x in ints:
                # everything of X before x is smaller than Y[y]
                for on, oe in L.outer:
                    yield f"lag{nm}.{x.name}<{nm2}.outer {on}", lambda v, x=x, oe=oe, X=X, Y=Y, z=z, M=M: z3.Implies(z3.And(z < ze(v[x]), ze(oe) < ze(M)), X[z] < Y[ze(oe)])
                for y in ints:
                    if x is y: continue
                    yield f"lag{nm}.{x.name}<{nm2}.{y.name}", lambda v, x=x, y=y, X=X, Y=Y, z=z, M=M: z3.Implies(z3.And(z < ze(v[x]), ze(v[y]) < ze(M)), X[z] < Y[ze(v[y])])
    if R is None: return
    yield "asc", lambda v: z3.Implies(k2 < ze(sizes(v)), R(v)[k1] < R(v)[k2])
    for nm, X, N, z in two:
        yield f"sound{nm}", lambda v, X=X, N=N: z3.Implies(k1 < ze(sizes(v)), member(X, N, R(v)[k1]))
    yield "len>=0", lambda v: ge(sizes(v), 0)
    for x in ints:
        yield f"len<={x.name}", lambda v, x=x: le(sizes(v), v[x])
        for nm, X, N, z in two:
            yield f"bound{nm}.{x.name}", lambda v, x=x, X=X, N=N: z3.Implies(z3.And(k1 < ze(sizes(v)), ze(v[x]) < ze(N)), R(v)[k1] < X[ze(v[x])])
            yield f"bound2{nm}.{x.name}", lambda v, x=x, X=X, N=N: z3.Implies(z3.And(k2 < ze(sizes(v)), ze(v[x]) < ze(N)), R(v)[k2] < X[ze(v[x])])
            yield f"done{nm}.{x.name}", lambda v, x=x, z=z: z3.Implies(z3.And(z < ze(v[x]), A[i0] == B[j0]), exists(q4, z3.And(0 <= q4, q4 < ze(sizes(v)), R(v)[q4] == A[i0])))

def vecgen(c, L, lists):
    vs = vec_objs(L)
    if not vs: yield from resgen(c, L, None, None, lists)
    for o, r in vs: yield from resgen(c, L, lambda v, r=r: v.arr(r), lambda v, o=o, r=r: vsize(v, o, r), lists)

class SetIntersect(Contract):
    """Util::intersect on two strictly ascending lists"""
    name = "Util::intersect(unsigned int*&, unsigned int&, unsigned int const*, unsigned int, unsigned int const*, unsigned int)"
    title = "Util::intersect"
    opt = {"fp": "havoc"}
    uses = (BSearchInt(),)
    budget = 200
    def setup(self, ex):
        st = State(); n = u32(ex, st, "n"); m = u32(ex, st, "m"); st.assume(n.e < NMAX); st.assume(m.e < NMAX)
        p = array(ex, st, "list1", n.e); A = arr0(ex, st, p); q = array(ex, st, "list2", m.e); B = arr0(ex, st, q)
        p.r.heap = q.r.heap = "new[]"
        for X, N in ((A, n.e), (B, m.e)): st.assume(ascending(X, N))
        k1, k2, i0, j0 = fresh("k1"), fresh("k2"), fresh("i0"), fresh("j0")
        st.assume(z3.And(0 <= k1, k1 < k2, 0 <= i0, i0 < n.e, 0 <= j0, j0 < m.e))
        out = Region("out", "obj"); out.pre = True; out.init[0] = NULL; out.slotw[0] = 8
        ol = Region("outlen", "obj"); ol.pre = True
        yield Case("", st, [Ptr(out), Ptr(ol), p, n, q, m], A=A, B=B, n=n.e, m=m.e, out=Ptr(out), ol=Ptr(ol), k1=k1, k2=k2, i0=i0, j0=j0)
    def gen(self, ex, c, L):
        return vecgen(c, L, [(c.A, c.n), (c.B, c.m)])
    def post(self, ex, c, st, ret):
        o = slot(ex, st, c.out, 0); l = ze(ex.U(st, slot(ex, st, c.ol, 0)))
        if o.r is None:
            return [("null result means empty result", l == 0), ("nothing missing", c.A[c.i0] != c.B[c.j0])]
        R = ex.arr_of(st, o.r, 0)
        return inter_post(c, R, l)

def inter_post(c, R, l):
    return [("result strictly ascending", z3.Implies(c.k2 < l, R[c.k1] < R[c.k2])),
            ("result elements are in the first list", z3.Implies(c.k1 < l, member(c.A, c.n, R[c.k1]))),
            ("result elements are in the second list", z3.Implies(c.k1 < l, member(c.B, c.m, R[c.k1]))),
            ("common elements are in the result", z3.Implies(c.A[c.i0] == c.B[c.j0], exists(q4, z3.And(0 <= q4, q4 < l, R[q4] == c.A[c.i0]))))]

def two_lists(ex, vecA=False, vecB=False, names=("list1", "list2"), strict=True):
    st = State(); n = u32(ex, st, "n"); m = u32(ex, st, "m"); st.assume(n.e < NMAX); st.assume(m.e < NMAX)
    def mk(vec, nm, k):
        if vec: p, r = vector(ex, st, nm, k); return p, ex.arr_of(st, r, 0)
        p = array(ex, st, nm, k); return p, arr0(ex, st, p)
    p, A = mk(vecA, names[0], n.e); q, B = mk(vecB, names[1], m.e)
    for X, N in ((A, n.e), (B, m.e)): st.assume(ascending(X, N, strict))
    k1, k2, i0, j0 = fresh("k1"), fresh("k2"), fresh("i0"), fresh("j0")
    st.assume(z3.And(0 <= k1, k1 < k2, 0 <= i0, 0 <= j0))
    return st, p, q, n, m, dict(A=A, B=B, n=n.e, m=m.e, k1=k1, k2=k2, i0=i0, j0=j0)

class IDListIntersect(Contract):
    """static IDList::intersect: a fresh list holding exactly the common elements; arguments unchanged"""
    name = "IDList::intersect(IDList const&, unsigned int const*, unsigned int)"
    title = "IDList::intersect"
    opt = {"fp": "havoc"}
    uses = (BSearchInt(), BSearchVec())
    budget = 240
    def setup(self, ex):
        st, p, q, n, m, d = two_lists(ex, vecA=True)
        st.assume(z3.And(d["i0"] < n.e, d["j0"] < m.e))
        yield Case("", st, [p, q, m], p=p, q=q, **d)
    def gen(self, ex, c, L): return vecgen(c, L, [(c.A, c.n), (c.B, c.m)])
    def post(self, ex, c, st, ret):
        r, l = vec_size(ex, st, ret, 4)
        R = ex.arr_of(st, r, 0)
        r0, l0 = vec_size(ex, st, c.p, 4)
        return inter_post(c, R, ze(l)) + [("first list unchanged", z3.And(ex.arr_of(st, r0, 0) == c.A, ze(l0) == c.n)), ("second list unchanged", ex.arr_of(st, c.q.r, 0) == c.B)]

class IDListIntersectList(Contract):
    """in-place intersection; returns how many elements were removed"""
    name = "IDList::intersectList(unsigned int const*, unsigned int)"
    title = "IDList::intersectList"
    opt = {"fp": "havoc"}
    uses = ()
    budget = 240
    def setup(self, ex):
        st, p, q, n, m, d = two_lists(ex, vecA=True)
        st.assume(z3.And(d["i0"] < n.e, d["j0"] < m.e))
        yield Case("", st, [p, q, m], p=p, q=q, **d)
    def gen(self, ex, c, L):
        from itertools import chain
        # the in-place branch writes the list itself; the result is its prefix
        own = slot(ex, L.st0, c.p, 0).r
        vs = [x for x in vec_objs(L) if x[1] is not own]
        if vs:
            for o, r in vs: yield from resgen(c, L, lambda v, r=r: v.arr(r), lambda v, o=o, r=r: vsize(v, o, r), [(c.A, c.n), (c.B, c.m)])
            for o, r in vs: yield from self.gen_merge(c, L, r, o)
        elif not any(r is own for k, r, a0, a in L.arrs): yield from resgen(c, L, None, None, [(c.A, c.n), (c.B, c.m)])
        else:
            for x in [x for x in L.idx if x.kind == "int"]:
                yield from ((f"{x.name}:{nm}", f) for nm, f in resgen(c, L, lambda v: v.arr(own), lambda v, x=x: v[x], [(c.A, c.n), (c.B, c.m)]))
    def gen_merge(self, c, L, r, o): return []
    def post(self, ex, c, st, ret):
        r, l = vec_size(ex, st, c.p, 4); l = ze(l)
        R = ex.arr_of(st, r, 0)
        return inter_post(c, R, l) + [("the return value is the number of removed elements", ze(ex.U(st, ret)) == c.n - l), ("second list unchanged", ex.arr_of(st, c.q.r, 0) == c.B)]

class IDListUnion(Contract):
    """in-place union of two strictly ascending lists"""
    name = "IDList::unionList(unsigned int const*, unsigned int, bool)"
    title = "IDList::unionList"
    budget = 240
    def setup(self, ex):
        st, p, q, n, m, d = two_lists(ex, vecA=True)
        yield Case("entities and literals", st, [p, q, m, False], p=p, q=q, lit=False, **d)
        st, p, q, n, m, d = two_lists(ex, vecA=True)
        yield Case("literals only", st, [p, q, m, True], p=p, q=q, lit=True, **d)
    def gen(self, ex, c, L):
        own = slot(ex, L.st0, c.p, 0).r
        A, B, k1, k2, i0, j0 = c.A, c.B, c.k1, c.k2, c.i0, c.j0
        ints = L.idx
        temps = [r for k, r, a0, a in L.arrs if r is not None and r is not own] + [r for r in (self.temp(L, own),) if r is not None]
        if c.lit:
            for o, r in vec_objs(L):
                for x in ints: yield f"added.{x.name}", lambda v, x=x, o=o, r=r: z3.Implies(z3.And(j0 < ze(v[x]), B[j0] >= 2000000000), exists(q4, z3.And(c.n <= q4, q4 < ze(vsize(v, o, r)), v.arr(r)[q4] == B[j0])))
            for x in ints: yield f"noliteral.{x.name}", lambda v, x=x: z3.Implies(j0 < ze(v[x]), B[j0] < 2000000000)
        for r in dict.fromkeys(temps):
            for s in ints:
                R = lambda v, r=r: v.arr(r)
                yield f"asc.{r.name}.{s.name}", lambda v, s=s, R=R: z3.Implies(k2 < ze(v[s]), R(v)[k1] < R(v)[k2])
                yield f"src.{r.name}.{s.name}", lambda v, s=s, R=R: z3.Implies(k1 < ze(v[s]), z3.Or(member(A, c.n, R(v)[k1]), member(B, c.m, R(v)[k1])))
                for x in ints:
                    if x is s: continue
                    for nm, X, N, z in (("A", A, c.n, i0), ("B", B, c.m, j0)):
                        for kk, k in (("1", k1), ("2", k2)):
                            yield f"bound{kk}{nm}.{r.name}.{s.name}.{x.name}", lambda v, s=s, x=x, X=X, N=N, k=k, R=R: z3.Implies(z3.And(k < ze(v[s]), ze(v[x]) < ze(N)), R(v)[k] < X[ze(v[x])])
                        yield f"done{nm}.{r.name}.{s.name}.{x.name}", lambda v, s=s, x=x, X=X, N=N, z=z, R=R: z3.Implies(z3.And(z < ze(v[x]), z < ze(N)), exists(q4, z3.And(0 <= q4, q4 < ze(v[s]), R(v)[q4] == X[z])))
    def temp(self, L, own): return None
    def post(self, ex, c, st, ret):
        r, l = vec_size(ex, st, c.p, 4); l = ze(l)
        R = ex.arr_of(st, r, 0); rv = ze(ex.U(st, ret))
        ps = [("the return value is the number of added elements", rv == l - c.n), ("second list unchanged", ex.arr_of(st, c.q.r, 0) == c.B)]
        if not c.lit:
            ps += [("result strictly ascending", z3.Implies(c.k2 < l, R[c.k1] < R[c.k2])),
                   ("result elements come from an argument", z3.Implies(c.k1 < l, z3.Or(member(c.A, c.n, R[c.k1]), member(c.B, c.m, R[c.k1])))),
                   ("first list is contained", z3.Implies(c.i0 < c.n, exists(q4, z3.And(0 <= q4, q4 < l, R[q4] == c.A[c.i0])))),
                   ("second list is contained", z3.Implies(c.j0 < c.m, exists(q4, z3.And(0 <= q4, q4 < l, R[q4] == c.B[c.j0]))))]
        else:
            ps += [("own elements stay in front", z3.Implies(c.i0 < c.n, R[c.i0] == c.A[c.i0])),
                   ("added elements are literals of the argument", z3.Implies(z3.And(c.k1 >= c.n, c.k1 < l), z3.And(R[c.k1] >= 2000000000, member(c.B, c.m, R[c.k1])))),
                   ("every literal of the argument is added", z3.Implies(z3.And(c.j0 < c.m, c.B[c.j0] >= 2000000000), exists(q4, z3.And(c.n <= q4, q4 < l, R[q4] == c.B[c.j0]))))]
        return ps

class IDListExist(Contract):
    name = "IDList::isExistID(unsigned int) const"
    title = "IDList::isExistID"
    def setup(self, ex):
        st = State(); key = u32(ex, st, "key"); n = u32(ex, st, "n"); st.assume(n.e < NMAX)
        p, r = vector(ex, st, "list", n.e)
        yield Case("", st, [p, key], A=ex.arr_of(st, r, 0), n=n.e, key=key.e)
    def gen(self, ex, c, L):
        for x in L.vars:
            if x.kind == "int": yield f"none before {x.name}", lambda v, x=x: forall(q1, z3.Implies(z3.And(0 <= q1, q1 < ze(v[x])), c.A[q1] != c.key))
    def post(self, ex, c, st, ret):
        return [("membership", ze(ret) == member(c.A, c.n, c.key))]

FUNCS = [BSearchInt(), BSearchVec(), RemoveDup(), SetIntersect(), IDListIntersect(), IDListIntersectList(), IDListUnion(), IDListExist()]
HARNESS = {"src": "C01.cpp", "tus": ["Util/Util.cpp", "Query/IDList.cpp"], "secs": 20}
ASSUMPTIONS = ["lists are shorter than 2^31 elements", "floating-point choice of the search strategy is treated as arbitrary (every strategy is proved)", "std::lower_bound/upper_bound follow their library contract on a sorted range (obligation: the range is sorted)"]
BOUNDED = ["multiset semantics of intersectList, Util::sort, IDListWithAppending: harness only (seeded inputs up to 400 elements)"]
