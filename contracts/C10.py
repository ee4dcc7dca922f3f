"""C10: tables of solutions.  A string is abstracted to the rank of its text in the order of std::string, a row to its identifiers and strings.
The order of rows and everything that relies on it (sorting, the range of rows equal to a given one) is proved for tables of any size; the operators
above them are compared with the SPARQL algebra by the harness (bounded)."""
import re, os
from spec import *
from vals import *
import stl

ID = "C10"
TUS = ["Query/TempResult.cpp", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/inst/C10.cpp"]
from C12 import off
S = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"
RP = "TempResult::ResultPair"
VI = "std::vector<int, std::allocator<int> >"
OPT = {"elem": {S: 32, RP: 40}, "elem_leaves": {S: [(0, Ty("i", 64))]}}
def text(ex, func, st, p): return ze(ex.U(st, ex.load(st, func, Ty("i", 64), p)))
def m_lt(ex, func, st, dn, av, rt): a, b = text(ex, func, st, av[0]), text(ex, func, st, av[1]); return [(st, a < b if "operator<" in dn.split("(")[0].replace("operator< <", "operator<<") and "operator>" not in dn.split("(")[0] else a > b)]
MODELS = [(re.compile(r"^bool std::operator(<|>) ?<char, std::char_traits<char>, std::allocator<char> ?>\(std::__cxx11::basic_string"), m_lt)]
def N(e, hi=1 << 30): return IV(32, e, 0, hi)
a1, b1, c1, v1 = z3.Ints("a1 b1 c1 v1")
def sign(x, y): return z3.If(x < y, -1, z3.If(x > y, 1, 0))
class Row:      # ids, strings, number of id columns
    def __init__(s, I, T, n): s.I, s.T, s.n = I, T, n
def column(x, xp, y, yp, i):
    """what column i of the comparison says: the order of the identifiers, or of the strings; nothing when one side holds an identifier and the other a string"""
    px, py = xp[i], yp[i]
    return z3.If(z3.And(px < x.n, py < y.n), sign(x.I[px], y.I[py]), z3.If(z3.And(px >= x.n, py >= y.n), sign(x.T[px - x.n], y.T[py - y.n]), 0))
def row(ex, st, nm, cols, strs):
    ids = array(ex, st, nm + " ids", cols); I = arr0(ex, st, ids); r = Region(nm + " strings", "arr", stride=32); r.pre = True; r.isvec = True; r.slotw[0] = 8
    o = Region(nm, "obj"); o.pre = True; set_vector(o, 16, r, strs, 32); T = ex.arr_of(st, r, 0); o.init[0] = ids; o.slotw[0] = 8; o.init[8] = ex.fresh_int(32, nm + ".sz", st=st); o.slotw[8] = 4
    st.assume(forall([a1], z3.And(T[a1] >= 0, T[a1] < 1 << 64))); st.assume(forall([a1], z3.And(I[a1] >= 0, I[a1] < 1 << 32))); return Ptr(o), I, T
def positions(ex, st, nm, n, total):
    p, r = vector(ex, st, nm, n, 4); r.signed.add(0); A = ex.arr_of(st, r, 0); st.assume(z3.And(n >= 0, n < 1 << 31)); st.assume(forall([a1], z3.And(A[a1] >= -(1 << 31), A[a1] < 1 << 31)))
    st.assume(forall([a1], z3.Implies(z3.And(0 <= a1, a1 < n), z3.And(0 <= A[a1], A[a1] < total)))); return p, A
class K(Contract):
    opt = OPT; models = MODELS; budget = 120
class Compare(K):
    name = f"TempResult::compareRow({RP} const&, int, {VI} const&, {RP} const&, int, {VI} const&)"; title = "TempResult::compareRow"
    def setup(self, ex):
        st = State(); nx, ny, sx, sy, lx, ly = (fresh(k) for k in ("x columns", "y columns", "x strings", "y strings", "x positions", "y positions"))
        for v in (nx, ny, sx, sy): st.assume(z3.And(v >= 0, v < 1 << 30))
        px, XI, XT = row(ex, st, "x", nx, sx); py, YI, YT = row(ex, st, "y", ny, sy); vx, XP = positions(ex, st, "x positions", lx, nx + sx); vy, YP = positions(ex, st, "y positions", ly, ny + sy)
        x, y = Row(XI, XT, nx), Row(YI, YT, ny)
        yield Case("", st, [px, N(nx), vx, py, N(ny), vy], x=x, y=y, XP=XP, YP=YP, n=z3.If(lx < ly, lx, ly))
    def gen(self, ex, c, L): yield "equal so far", lambda v: z3.And(v["it"] <= c.n, forall([a1], z3.Implies(z3.And(0 <= a1, a1 < v["it"]), column(c.x, c.XP, c.y, c.YP, a1) == 0)))
    def spec(self, x, xp, y, yp, n, r):
        """r is what the first column that says anything says"""
        col = lambda i: column(x, xp, y, yp, i); eq = lambda m: forall([a1], z3.Implies(z3.And(0 <= a1, a1 < m), col(a1) == 0))
        return z3.Or(z3.And(r == 0, eq(n)), exists([b1], z3.And(0 <= b1, b1 < n, col(b1) == r, r != 0, eq(b1))))
    def post(self, ex, c, st, ret):
        r = ze(ex.S(st, ret)); ps = [("what the first column that says anything says", self.spec(c.x, c.XP, c.y, c.YP, c.n, r))]
        # the comparison is the order of a total preorder: what sorting and the search by halves rely on
        arr = lambda nm: fresh(nm, int_arr()); X, Y, Z = (Row(arr(k + "I"), arr(k + "T"), fresh("cols")) for k in "XYZ"); p, q, n = arr("P"), arr("Q"), c.n; Y.n = X.n
        def first(x, xp, y, yp, k, r, w):      # the same with the deciding column w given (w = n: none)
            return z3.And(0 <= w, w <= n, z3.Implies(w == n, r == 0), z3.Implies(w < n, z3.And(r != 0, column(x, xp, y, yp, w) == r)), forall([a1], z3.Implies(z3.And(0 <= a1, a1 < w), column(x, xp, y, yp, a1) == 0)))
        rs, ws = [fresh(f"r{i}") for i in range(4)], [fresh(f"w{i}") for i in range(4)]
        ps += [("lemma: the result is determined", z3.Implies(z3.And(first(X, p, Z, q, n, rs[0], ws[0]), first(X, p, Z, q, n, rs[1], ws[1])), rs[0] == rs[1])),
               ("lemma: the other way round the result has the opposite sign", z3.Implies(z3.And(first(X, p, Z, q, n, rs[0], ws[0]), first(Z, q, X, p, n, rs[1], ws[1])), rs[0] == -rs[1]))]
        same = forall([a1], z3.Implies(z3.And(0 <= a1, a1 < n), (p[a1] < X.n) == (q[a1] < Z.n)))      # every column compared holds the same kind on both sides
        ps += [("lemma: a row that is not after another of its table is not after it against a third row either, if the columns compared are of one kind", z3.Implies(z3.And(same, first(X, p, Y, p, n, rs[0], ws[0]), rs[0] <= 0, first(X, p, Z, q, n, rs[1], ws[1]), first(Y, p, Z, q, n, rs[2], ws[2])), rs[1] <= rs[2]))]
        return ps
COMPARE = Compare()
# ---- a table: its rows, and what the comparison says about them
def m_cols(ex, func, st, dn, av, rt): return [(st, N(ex.case.cols))]
COLS = [(re.compile(r"^Varset::getVarsetSize\(\) const"), m_cols)]
def rows(ex, st, n, nm="rows"):
    """a TempResult of n rows; its rows are named by the identity of their identifiers and of their strings"""
    r = Region(nm, "arr", stride=40); r.pre = True; r.isvec = True
    for o, w in ((0, 8), (8, 4), (16, 8)): r.slotw[o] = w
    return r
class Search(K):
    models = MODELS + COLS; uses = (COMPARE,); budget = 60; left = True
    def setup(self, ex):
        st = State(); n = fresh("rows"); cols, xc = fresh("columns"), fresh("x columns"); st.assume(z3.And(n >= 0, n < 1 << 30, cols >= 0, cols < 1 << 30, xc >= 0, xc < 1 << 30)); o = Region("table", "obj"); o.pre = True; r = rows(ex, st, n)
        set_vector(o, off(ex, "tr_result"), r, n, 40); C = fresh("order of a row and x", int_arr()); st.assume(forall([a1], z3.And(C[a1] >= -1, C[a1] <= 1)))
        st.assume(forall([a1, b1], z3.Implies(z3.And(0 <= a1, a1 <= b1, b1 < n), C[a1] <= C[b1])))      # the rows are sorted by the columns compared (lemma of compareRow)
        tp, xp, x = Region("table positions", "obj"), Region("x positions", "obj"), Region("x", "obj")
        yield Case("", st, [Ptr(o), Ptr(tp), Ptr(x), N(xc), Ptr(xp)], n=n, C=C, cols=cols, xc=xc, tp=tp, xp=xp, x=x, r=r, span=(-1, 4), small=[(n, 0, 4)])
    def gen(self, ex, c, L):
        for i, a in enumerate(L.vars):
            if a.kind != "int": continue
            x = lambda v, a=a: ze(v[a]); w = f" ({i})"
            yield "a row" + w, lambda v, x=x: z3.And(x(v) >= 0, x(v) < c.n)
            if self.left:
                yield "less before" + w, lambda v, x=x: forall([a1], z3.Implies(z3.And(0 <= a1, a1 < x(v)), c.C[a1] < 0))
                yield "not less from here, or the end" + w, lambda v, x=x: z3.Or(x(v) == c.n - 1, c.C[x(v)] >= 0)
            else:
                yield "greater after" + w, lambda v, x=x: forall([a1], z3.Implies(z3.And(x(v) < a1, a1 < c.n), c.C[a1] > 0))
                yield "not greater up to here, or the start" + w, lambda v, x=x: z3.Or(x(v) == 0, c.C[x(v)] <= 0)
            for b in L.vars:
                if b.kind == "int" and b is not a: yield "in order" + w, lambda v, x=x, b=b: x(v) <= ze(v[b])
    def post(self, ex, c, st, ret):
        r = ze(ex.S(st, ret)); none = forall([a1], z3.Implies(z3.And(0 <= a1, a1 < c.n), c.C[a1] != 0)); k = fresh("k")
        return [("none exactly if no row is equal", (r == -1) == none), (("first" if self.left else "last") + " row equal to the given one", z3.Implies(r != -1, z3.And(0 <= r, r < c.n, c.C[r] == 0))), ("no equal row beyond it", z3.Implies(z3.And(r != -1, 0 <= k, k < c.n, k < r if self.left else k > r), c.C[k] != 0))]
class Left(Search): name = f"TempResult::findLeftBounder({VI} const&, {RP} const&, int, {VI} const&) const"; title = "TempResult::findLeftBounder"
class Right(Search): name = f"TempResult::findRightBounder({VI} const&, {RP} const&, int, {VI} const&) const"; title = "TempResult::findRightBounder"; left = False
def index(c, p):
    if p.r is not c.r: raise Unsupported("a row of another table")
    q = p.off.divmod(40)
    if q is None or q[1] != 0: raise Unsupported("not a row")
    return ze(q[0])
def compare_rows(self, ex, func, st, av, rt):
    c = ex.case
    if not hasattr(c, "C"): return compare_sorted(ex, st, av)
    k = index(c, av[0]); same = lambda a, b: isinstance(a, Ptr) and a.r is b
    if not (same(av[2], c.tp) and same(av[3], c.x) and same(av[5], c.xp)): raise Unsupported("another comparison")
    ex.oblige(st, z3.And(0 <= k, k < c.n), "row within the table"); ex.oblige(st, z3.And(ze(av[1].e) == c.cols, ze(av[4].e) == c.xc), "columns of the two tables"); return [(st, IV(32, c.C[k], -1, 1))]
Compare.apply = compare_rows
# ---- sort: identity v is that of the row that held it at first; A, B: the identities of the identifiers and of the strings of each row; P: the row where an identity is
PK = ("ghost", "row of an identity")
def ab(ex, st, r): return ex.arr_of(st, r, 0), ex.arr_of(st, r, 16)
def put(st, r, o, N): st.mem[(r.id, o)] = N; st.writes.append((r, o, None, N))
def m_swap(ex, func, st, dn, av, rt):
    c = ex.case; o = 0 if "unsigned int*" in dn else 16; k = []
    for p in av[:2]:
        if p.r is not c.r: raise Unsupported("swap of something else")
        q = p.off.divmod(40)
        if q is None or q[1] != o: raise Unsupported("swap of something else")
        k.append(ze(q[0])); ex.oblige(st, z3.And(0 <= k[-1], k[-1] < c.n), "row within the table")
    X = ex.arr_of(st, c.r, o); i, j = k; put(st, c.r, o, z3.Store(z3.Store(X, i, X[j]), j, X[i]))
    if o == 0: P = st.mem[PK]; st.mem[PK] = z3.Store(z3.Store(P, X[i], j), X[j], i)
    return [(st, None)]
SWAP = [(re.compile(r"^(void|std::enable_if<.*) std::swap<(unsigned int\*|std::__cxx11::basic_string|std::vector<std::__cxx11::basic_string)"), m_swap)]
def inverse(A, B, P, n): return [("every row holds one row of before, its identifiers with its strings", forall([a1], z3.Implies(z3.And(0 <= a1, a1 < n), z3.And(A[a1] == B[a1], 0 <= A[a1], A[a1] < n, P[A[a1]] == a1)))), ("no row is lost", forall([v1], z3.Implies(z3.And(0 <= v1, v1 < n), z3.And(0 <= P[v1], P[v1] < n, A[P[v1]] == v1))))]
def within(x, l, r): return z3.And(l <= x, x <= r)
def moved(A0, P0, A, P, l, r, n):
    return [("rows move only within the part sorted", forall([v1], z3.Implies(z3.And(0 <= v1, v1 < n), z3.If(within(P0[v1], l, r), within(P[v1], l, r), P[v1] == P0[v1])))), ("rows outside stay", forall([a1], z3.Implies(z3.And(0 <= a1, a1 < n, z3.Not(within(a1, l, r))), A[a1] == A0[a1])))]
def ordered(A, rank, l, r): return ("in order", forall([a1, b1], z3.Implies(z3.And(l <= a1, a1 < b1, b1 <= r), rank[A[a1]] <= rank[A[b1]])))
def compare_sorted(ex, st, av):
    c = ex.case; A, B = ab(ex, st, c.r); i, j = index(c, av[0]), index(c, av[3])
    if not all(isinstance(p, Ptr) and p.r is c.pos for p in (av[2], av[5])): raise Unsupported("another comparison")
    ex.oblige(st, z3.And(within(i, 0, c.n - 1), within(j, 0, c.n - 1)), "row within the table"); ex.oblige(st, z3.And(A[i] == B[i], A[j] == B[j]), "identifiers and strings of one row"); ex.oblige(st, z3.And(ze(av[1].e) == c.cols, ze(av[4].e) == c.cols), "columns of the table")
    return [(st, IV(32, sign(c.rank[A[i]], c.rank[A[j]]), -1, 1))]
class Sort(K):
    name = f"TempResult::sort(int, int, {VI} const&)"; title = "TempResult::sort"; models = SWAP + COLS + MODELS; budget = 200
    def setup(self, ex):
        st = State(); n = fresh("rows"); cols = fresh("columns"); st.assume(z3.And(n >= 0, n < 1 << 30, cols >= 0, cols < 1 << 30)); o = Region("table", "obj"); o.pre = True; r = rows(ex, st, n); set_vector(o, off(ex, "tr_result"), r, n, 40)
        A, B = ab(ex, st, r); P = fresh("row of an identity", int_arr()); st.mem[PK] = P; rank = fresh("rank", int_arr()); lo, hi = i32(ex, st, "l"), i32(ex, st, "r"); st.assume(z3.And(0 <= lo.e, lo.e <= n, lo.e - 1 <= hi.e, hi.e < n)); lo.lo, hi.lo, lo.hi, hi.hi = 0, -1, 1 << 30, 1 << 30
        for _, f in inverse(A, B, P, n): st.assume(f)
        pos = Region("positions", "obj"); yield Case("", st, [Ptr(o), lo, hi, Ptr(pos)], o=o, n=n, cols=cols, r=r, A=A, B=B, P=P, rank=rank, l=lo.e, h=hi.e, pos=pos)
    def gen(self, ex, c, L):
        for i, a in enumerate(L.vars):
            if a.kind != "int": continue
            x = lambda v, a=a: ze(v[a]); w = f" ({i})"; R = lambda v, k: c.rank[v.arr(c.r, 0)[k]]
            yield "at least l" + w, lambda v, x=x: x(v) >= c.l
            yield "after l" + w, lambda v, x=x: x(v) > c.l
            yield "before r" + w, lambda v, x=x: x(v) < c.h
            yield "at most r" + w, lambda v, x=x: x(v) <= c.h
            yield "at most one after r" + w, lambda v, x=x: x(v) <= c.h + 1
            yield "not greater up to here" + w, lambda v, x=x: forall([a1], z3.Implies(z3.And(c.l <= a1, a1 <= x(v)), R(v, a1) <= R(v, c.l)))
            yield "not less from here" + w, lambda v, x=x: forall([a1], z3.Implies(z3.And(x(v) <= a1, a1 <= c.h), R(v, a1) >= R(v, c.l)))
            for k, b in enumerate(L.vars):
                if b.kind == "int" and b is not a: yield "less" + w + str(k), lambda v, x=x, b=b: x(v) < ze(v[b])
        cur = lambda v: (v.arr(c.r, 0), v.arr(c.r, 16), v.st.mem[PK])
        for k in range(2): yield f"rows {k}", lambda v, k=k: inverse(*cur(v), c.n)[k][1]
        for k in range(2): yield f"moved {k}", lambda v, k=k: moved(c.A, c.P, cur(v)[0], cur(v)[2], c.l, c.h, c.n)[k][1]
    def post(self, ex, c, st, ret):
        A, B = ab(ex, st, c.r); P = st.mem[PK]; return inverse(A, B, P, c.n) + moved(c.A, c.P, A, P, c.l, c.h, c.n) + [ordered(A, c.rank, c.l, c.h)]
    def apply(self, ex, func, st, av, rt):
        c = ex.case; l, h = ze(ex.S(st, av[1])), ze(ex.S(st, av[2])); A, B = ab(ex, st, c.r); P = st.mem[PK]
        if av[0].r is not c.o or av[3].r is not c.pos: raise Unsupported("another table")
        ex.oblige(st, z3.And(0 <= l, l <= c.n, l - 1 <= h, h < c.n), "part of the table to sort")
        for nm, f in inverse(A, B, P, c.n): ex.oblige(st, f, "before sorting: " + nm)
        A2, B2, P2 = (fresh(k, int_arr()) for k in ("ids", "strings", "where")); put(st, c.r, 0, A2); put(st, c.r, 16, B2); st.mem[PK] = P2
        for _, f in inverse(A2, B2, P2, c.n) + moved(A, P, A2, P2, l, h, c.n) + [ordered(A2, c.rank, l, h)]: st.assume(f)
        return [(st, None)]
SORT = Sort(); SORT.uses = (COMPARE, SORT)
# ---- copies of rows
class Copy(K):
    ctor = True; name = f"{RP}::ResultPair({RP} const&)"; title = "ResultPair(copy)"; budget = 60
    def setup(self, ex):
        for lab in ("identifiers", "no identifiers"):
            for old in (("",) if self.ctor else ("over identifiers", "over none", "itself")):
                st = State(); n, m = fresh("identifiers"), fresh("strings"); st.assume(z3.And(n >= 0, n < 1 << 30, m >= 0, m < 1 << 30)); p, I, T = row(ex, st, "that", n, m); p.r.init[8] = N(n); ids = p.r.init[0]; ids.r.heap = "new[]"
                if lab == "no identifiers": p.r.init[0] = Ptr(None)
                if old == "itself": q = p
                elif self.ctor: q = Ptr(Region("new row", "obj"))
                else:
                    k, j = fresh("old identifiers"), fresh("old strings"); st.assume(z3.And(k >= 0, k < 1 << 30, j >= 0, j < 1 << 30)); q, _, _ = row(ex, st, "this", k, j); q.r.init[0].r.heap = "new[]"
                    if old == "over none": q.r.init[0] = Ptr(None)
                yield Case(" ".join(x for x in (lab, old) if x), st, [q, p], q=q, p=p, n=n, m=m, I=I, T=T, ids=ids.r, strs=p.r.init[16].r, has=lab == "identifiers", same=old == "itself")
    def post(self, ex, c, st, ret):
        id_, sz = slot(ex, st, c.q, 0), slot(ex, st, c.q, 8); b, e = stl.g(st, c.q, 16), stl.g(st, c.q, 24); k = fresh("k"); ps = [("the number of identifiers", ze(ex.U(st, sz)) == c.n)]
        if not isinstance(id_, Ptr) or b is None: return [("the row is written", z3.BoolVal(False))]
        if c.has: ps += [("identifiers of its own", z3.BoolVal(id_.r is not None and id_.r is not c.ids)), ("the same identifiers", z3.Implies(z3.And(0 <= k, k < c.n), ex.arr_of(st, id_.r, 0)[k] == c.I[k]) if id_.r is not None else z3.BoolVal(False))]
        else: ps.append(("no identifiers", z3.BoolVal(id_.r is None)))
        ps.append(("as many strings", ze(e.off.sub(b.off).divmod(32)[0]) == c.m if e is not None and b.r is not None else z3.BoolVal(False)))
        if b.r is not None: ps.append(("the same strings", z3.Implies(z3.And(0 <= k, k < c.m), ex.arr_of(st, b.r, 0)[k] == c.T[k])))
        if not c.same: ps.append(("the original keeps its values", z3.And(z3.BoolVal(b.r is not c.strs), z3.Implies(z3.And(0 <= k, k < c.m), ex.arr_of(st, c.strs, 0)[k] == c.T[k]), z3.Implies(z3.And(0 <= k, k < c.n), ex.arr_of(st, c.ids, 0)[k] == c.I[k]))))
        return ps
class Assign(Copy): ctor = False; name = f"{RP}::operator=({RP} const&)"; title = "ResultPair::operator="
# ---- the table for given variables; a set of variables is named by its identity (Varset::operator== decides sameness: proved under C09)
TR = "std::vector<TempResult, std::allocator<TempResult> >"
def m_vseq(ex, func, st, dn, av, rt): return [(st, text(ex, func, st, av[0]) == text(ex, func, st, av[1]))]
def m_vsset(ex, func, st, dn, av, rt): ex.store(st, func, Ty("i", 64), ex.load(st, func, Ty("i", 64), av[1]), av[0]); return [(st, av[0])]
def m_trctor(ex, func, st, dn, av, rt):
    for k in ("tr_id", "tr_str"): ex.store(st, func, Ty("i", 64), ex.fresh_int(64, "no variables", st=st), Ptr(av[0].r, av[0].off.add(Lin(off(ex, k)))))
    ex.store(st, func, Ty("i", 64), ex.const(64, 0), Ptr(av[0].r, av[0].off.add(Lin(off(ex, "tr_result"))))); return [(st, None)]
def m_back(ex, func, st, dn, av, rt): e = stl.g(st, av[0], 8); return [(st, Ptr(e.r, e.off.sub(Lin(88))))]
def m_none(ex, func, st, dn, av, rt): return [(st, None)]
FIND = [(re.compile(r"^Varset::operator==\(Varset const&\) const"), m_vseq), (re.compile(r"^Varset::operator=\(Varset const&\)"), m_vsset), (re.compile(r"^TempResult::TempResult\(\)"), m_trctor), (re.compile(r"^TempResult::~TempResult\(\)"), m_none), (re.compile("^" + re.escape(TR) + r"::back\(\)"), m_back)]
class Table(K):
    name = "TempResultSet::findCompatibleResult(Varset&, Varset&)"; title = "TempResultSet::findCompatibleResult"; models = FIND; budget = 60
    opt = {"elem": {"TempResult": 88}, "elem_leaves": {"TempResult": [(0, Ty("i", 64)), (24, Ty("i", 64)), (48, Ty("i", 64))]}}
    def setup(self, ex):
        if [off(ex, k) for k in ("tr_id", "tr_str", "tr_result", "tr_size")] != [0, 24, 48, 88]: raise Unsupported("another layout of TempResult")
        st = State(); n = fresh("tables"); st.assume(z3.And(n >= 0, n < 1 << 30)); o = Region("set", "obj"); o.pre = True; r = Region("tables", "arr", stride=88); r.pre = True; r.isvec = True
        for k in (0, 24, 48): r.slotw[k] = 8
        set_vector(o, off(ex, "set_results"), r, n, 88); I, T, N_ = (ex.arr_of(st, r, k) for k in (0, 24, 48)); v = []
        for k in ("id variables", "string variables"): q = Region(k, "obj"); q.pre = True; x = ex.fresh_int(64, k, st=st); q.init[0] = x; q.slotw[0] = 8; v.append((Ptr(q), x.e))
        for A in (I, T): st.assume(forall([a1], z3.And(A[a1] >= 0, A[a1] < 1 << 64)))
        yield Case("", st, [Ptr(o), v[0][0], v[1][0]], o=o, r=r, n=n, I=I, T=T, N=N_, i=v[0][1], t=v[1][1], span=(-1, 4), small=[(n, 0, 4)])
    def hit(self, c, k): return z3.And(c.I[k] == c.i, c.T[k] == c.t)
    def gen(self, ex, c, L): yield "none so far", lambda v: z3.And(v["it"] <= c.n, forall([a1], z3.Implies(z3.And(0 <= a1, a1 < v["it"]), z3.Not(self.hit(c, a1)))))
    def post(self, ex, c, st, ret):
        r = ze(ex.S(st, ret)); q = Ptr(c.o, Lin(off(ex, "set_results"))); b, e = stl.g(st, q, 0), stl.g(st, q, 8); m = ze(e.off.sub(b.off).divmod(88)[0]); I, T, M = (ex.arr_of(st, b.r, k) for k in (0, 24, 48)); k = fresh("k"); old = exists([a1], z3.And(0 <= a1, a1 < c.n, self.hit(c, a1)))
        return [("a table of exactly these variables", z3.And(0 <= r, r < m, I[r] == c.i, T[r] == c.t)), ("a new table only if there was none", m == z3.If(old, c.n, c.n + 1)), ("the new one is empty", z3.Implies(r >= c.n, M[r] == 0)), ("the others stay as they are", z3.Implies(z3.And(0 <= k, k < c.n), z3.And(I[k] == c.I[k], T[k] == c.T[k], M[k] == c.N[k])))]
FUNCS = [COMPARE, Left(), Right(), SORT, Copy(), Assign(), Table()]
HARNESS = {"src": "C10.cpp", "tus": ["Query/TempResult.cpp", "Query/Varset.cpp", "Query/QueryTree.cpp", "Util/Util.cpp", "Util/Bstr.cpp", "Util/EvalMultitypeValue.cpp"], "secs": 15}
ASSUMPTIONS = ["std::string: operator< and operator> are the order of the texts, copies have the text of their original (a string is the rank of its text)", "std::vector: the model of gvc/stl.py; std::swap exchanges the two values", "fewer than 2^30 rows, columns and tables", "the order of compareRow is given by a rank of each row: it is a total preorder, which the lemmas of compareRow prove, and finitely many rows of a total preorder have integer ranks",
               "sort: that the recursion ends is not proved", "the searches are called on a table sorted by the columns compared, each of one kind on both sides (doJoin, doOptional and doMinus sort first and convert; compared with the algebra by the harness)", "Varset::getVarsetSize, Varset::operator==: proved under C09"]
BOUNDED = ["TempResult::doJoin, doUnion, doOptional, doMinus, convertId2Str, TempResultSet::doJoin, doUnion, doOptional, doMinus, doProjection1, doDistinct1: compared with the SPARQL algebra on random sets of up to three tables a side, up to 14 rows each, four variables", "doFilter, doBind: under C07 (values)", "a subquery's unbound columns (INVALID, the empty string) joined again: not examined"]
