"""C03: the blocks of a value file.  The two indexes of free runs stand for one set of free blocks; a block in use is one that was given out and is not free.
Handing out, releasing, writing and reading are proved against that set and against the blocks of the file (ghost: per block its successor, its length field, its bytes)."""
import re, os
from spec import *
from models import MESSAGES, linz
from vals import *

ID = "C03"
TUS = ["KVstore/IVArray/IVBlockManager.cpp", "KVstore/ISArray/ISBlockManager.cpp", "Util/Util.cpp", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/inst/C03.cpp"]
W = 1 << 32; BOOLS = z3.ArraySort(z3.IntSort(), z3.BoolSort()); REL = z3.ArraySort(z3.IntSort(), BOOLS); BYTES = z3.ArraySort(z3.IntSort(), int_arr())
_off = {}
def off(ex, nm):
    if nm not in _off:
        for m in ex.mods:
            for x, d in m.globals.items():
                if x.lstrip("@").strip('"') == "gvc_off_" + nm:
                    k = re.search(r"constant i64 (\d+)", str(d))
                    if k: _off[nm] = int(k.group(1))
    return _off[nm]
G = lambda n: ("ghost", n)
k1, k2, l1, j1, i1, x1 = z3.Ints("k1 k2 l1 j1 i1 x1")
# ---------------------------------------------------------------- the two indexes of free runs
class Runs:
    def __init__(s, dom, val, rel): s.dom, s.val, s.rel = dom, val, rel
    def inv(s, cur):
        d, v, R = s.dom, s.val, s.rel
        return [("a free run is not empty and lies within the file", forall([k1], z3.Implies(d[k1], z3.And(k1 >= 1, v[k1] >= 1, k1 + v[k1] <= cur + 1)))),
                ("free runs do not overlap", forall([k1, k2], z3.Implies(z3.And(d[k1], d[k2], k1 < k2), k1 + v[k1] <= k2))),
                ("both indexes list the same runs", forall([l1, k1], R[l1][k1] == z3.And(d[k1], v[k1] == l1)))]
    def fits(s, n): return exists([l1, k1], z3.And(s.rel[l1][k1], l1 >= n, l1 < W))
    def free(s, x): return exists([k1], z3.And(s.dom[k1], k1 <= x, x < k1 + s.val[k1]))
    def used(s, cur, x): return z3.And(1 <= x, x <= cur, z3.Not(s.free(x)))
    def same(s, o): return z3.And(s.dom == o.dom, s.val == o.val, s.rel == o.rel)
def runs(ex, st): c = ex.case; return Runs(st.mem[G("dom")], ex.arr_of(st, c.M, 4), st.mem[G("rel")])
def fresh_runs(ex, st):
    c = ex.case; st.mem[G("dom")] = fresh("dom", BOOLS); st.mem[G("rel")] = fresh("rel", REL); a = fresh("len", int_arr()); st.mem[(c.M.id, 4)] = a; return runs(ex, st)
def mine(ex, p, f): c = ex.case; return isinstance(p, Ptr) and p.r is c.o and p.off.isconst() and p.off.c == off(ex, c.k + "_" + f)
def chk(ex, p, f):
    if not mine(ex, p, f): raise Unsupported("another map or set")
def at(c, k): return Ptr(c.M, Lin.of(k).scale(8))
def END(c): return Ptr(c.M, Lin(8 * W))
def ld(ex, func, st, p): return ze(ex.U(st, ex.load(st, func, Ty("i", 32), p)))
def kof(ex, p): 
    q = p.off.divmod(8)
    if not q or q[1] != 0: raise Unsupported("iterator")
    return ze(q[0])
def first_from(ex, st, lo, strict=False):
    """the element with the smallest key at or after lo, or the end"""
    c = ex.case; d = st.mem[G("dom")]; j = fresh("key"); s2 = st.clone(); a = (k1 > lo) if strict else (k1 >= lo)
    st.assume(z3.And(d[j], j > lo if strict else j >= lo, j < W)); st.assume(forall([k1], z3.Implies(z3.And(a, k1 < j), z3.Not(d[k1])))); s2.assume(forall([k1], z3.Implies(a, z3.Not(d[k1]))))
    return [(st, at(c, j)), (s2, END(c))]
def m_lower(ex, func, st, dn, av, rt): chk(ex, av[0], "map"); return first_from(ex, st, ld(ex, func, st, av[1]), "upper" in dn)
def m_begin(ex, func, st, dn, av, rt): chk(ex, av[0], "map"); return first_from(ex, st, z3.IntVal(0))
def m_end(ex, func, st, dn, av, rt): chk(ex, av[0], "map"); return [(st, END(ex.case))]
def m_find(ex, func, st, dn, av, rt):
    chk(ex, av[0], "map"); k = ld(ex, func, st, av[1]); return [(s, at(ex.case, k) if hit else END(ex.case)) for s, hit in ex.branch(st, st.mem[G("dom")][k])]
def m_count(ex, func, st, dn, av, rt): chk(ex, av[0], "map"); h = st.mem[G("dom")][ld(ex, func, st, av[1])]; return [(st, IV(64, z3.If(h, z3.IntVal(1), z3.IntVal(0)), 0, 1, None, h))]
def m_dec(ex, func, st, dn, av, rt):
    c = ex.case; p = ex.load(st, func, Ty("ptr"), av[0]); k = kof(ex, p); d = st.mem[G("dom")]; j = fresh("key")
    ex.oblige(st, exists([k1], z3.And(d[k1], k1 < k)), "there is a run before the one stepped back from", "safety")
    st.assume(z3.And(d[j], j < k, j >= 0)); st.assume(forall([k1], z3.Implies(z3.And(j < k1, k1 < k), z3.Not(d[k1])))); ex.store(st, func, Ty("ptr"), at(c, j), av[0]); return [(st, av[0])]
def m_inc(ex, func, st, dn, av, rt):
    c = ex.case; p = ex.load(st, func, Ty("ptr"), av[0]); k = kof(ex, p); out = []; ex.oblige(st, k < W, "the end is not passed", "safety")
    for s, q in first_from(ex, st, k, True): ex.store(s, func, Ty("ptr"), q, av[0]); out.append((s, av[0]))
    return out
def m_arrow(ex, func, st, dn, av, rt):
    p = ex.load(st, func, Ty("ptr"), av[0])
    if p.r is ex.case.M: ex.oblige(st, st.mem[G("dom")][kof(ex, p)], "the iterator points to a run", "safety")
    return [(st, p)]
def m_cmp(ex, func, st, dn, av, rt):
    p, q = (ex.load(st, func, Ty("ptr"), x) for x in av); r = False if p.r is not q.r else ze(p.off.expr()) == ze(q.off.expr()); return [(st, r if "operator==" in dn else Not(r))]
def setdom(ex, st, k, b): st.mem[G("dom")] = z3.Store(st.mem[G("dom")], k, z3.BoolVal(b)); 
def setval(ex, st, k, v): c = ex.case; a = z3.Store(ex.arr_of(st, c.M, 4), k, v); st.mem[(c.M.id, 4)] = a; st.writes.append((c.M, 4, None, a))
def m_index(ex, func, st, dn, av, rt):
    chk(ex, av[0], "map"); k = ld(ex, func, st, av[1]); d = st.mem[G("dom")]; setval(ex, st, k, z3.If(d[k], ex.arr_of(st, ex.case.M, 4)[k], z3.IntVal(0))); setdom(ex, st, k, True); return [(st, Ptr(ex.case.M, Lin.of(k).scale(8).add(Lin(4))))]
def m_minsert(ex, func, st, dn, av, rt):
    chk(ex, av[0], "map"); k = ld(ex, func, st, av[1]); v = ld(ex, func, st, Ptr(av[1].r, av[1].off.add(Lin(4)), av[1].key)); d = st.mem[G("dom")]; was = d[k]; setval(ex, st, k, z3.If(was, ex.arr_of(st, ex.case.M, 4)[k], v)); setdom(ex, st, k, True); return [(st, AV([at(ex.case, k), z3.Not(was)]))]
def m_merase(ex, func, st, dn, av, rt):
    chk(ex, av[0], "map"); p = av[1]
    if "iterator" in dn.split("erase", 1)[1]: k = kof(ex, p); ex.oblige(st, st.mem[G("dom")][k], "the run erased is there", "safety"); setdom(ex, st, k, False); return [(st, NULL)]
    k = ld(ex, func, st, p); h = st.mem[G("dom")][k]; setdom(ex, st, k, False); return [(st, IV(64, z3.If(h, z3.IntVal(1), z3.IntVal(0)), 0, 1, None, h))]
def pair(ex, func, st, p): return ld(ex, func, st, p), ld(ex, func, st, Ptr(p.r, p.off.add(Lin(4)), p.key))
def setrel(st, l, i, b): R = st.mem[G("rel")]; st.mem[G("rel")] = z3.Store(R, l, z3.Store(R[l], i, z3.BoolVal(b)))
def s_insert(ex, func, st, dn, av, rt): chk(ex, av[0], "set"); l, i = pair(ex, func, st, av[1]); was = st.mem[G("rel")][l][i]; setrel(st, l, i, True); return [(st, AV([NULL, z3.Not(was)]))]
def s_erase(ex, func, st, dn, av, rt):
    chk(ex, av[0], "set")
    if "iterator" in dn.split("erase", 1)[1]:
        if not hasattr(av[1].r, "elem"): raise Unsupported("erase of an unknown iterator")
        l, i = av[1].r.elem; ex.oblige(st, st.mem[G("rel")][l][i], "the element erased is there", "safety"); setrel(st, l, i, False); return [(st, NULL)]
    l, i = pair(ex, func, st, av[1]); was = st.mem[G("rel")][l][i]; setrel(st, l, i, False); return [(st, IV(64, z3.If(was, z3.IntVal(1), z3.IntVal(0)), 0, 1, None, was))]
def s_end(ex, func, st, dn, av, rt): chk(ex, av[0], "set"); return [(st, Ptr(ex.case.E))]
def s_lower(ex, func, st, dn, av, rt):
    chk(ex, av[0], "set"); l0, i0 = pair(ex, func, st, av[1]); R = st.mem[G("rel")]; l, i = fresh("run length"), fresh("run start"); s2 = st.clone(); up = "upper" in dn
    ge = lambda a, b: z3.Or(a > l0, z3.And(a == l0, b > i0 if up else b >= i0)); st.assume(z3.And(R[l][i], ge(l, i), l >= 0, l < W, i >= 0, i < W))
    st.assume(forall([l1, k1], z3.Implies(z3.And(R[l1][k1], ge(l1, k1)), z3.Or(l1 > l, z3.And(l1 == l, k1 >= i))))); s2.assume(forall([l1, k1], z3.Implies(R[l1][k1], z3.Not(ge(l1, k1)))))
    r = Region("run", "obj"); r.elem = (l, i); r.init[0] = IV(32, l, 0, W - 1); r.init[4] = IV(32, i, 0, W - 1); r.slotw[0] = r.slotw[4] = 4; st.notes["found"] = (l, i); return [(st, Ptr(r)), (s2, Ptr(ex.case.E))]
def noop(ex, func, st, dn, av, rt): return [(st, None if rt.k == "void" else ex.fresh_int(32, "file", st=st) if rt.k == "i" else NULL)]
def m_new(ex, func, st, dn, av, rt):      # a node of the list of blocks to write
    n = ex.U(st, av[0])
    if not isc(n) or n != off(ex, "b_size"): return NotImplemented
    k = st.mem[G("cnt")] + 1; st.mem[G("cnt")] = k; return [(st, Ptr(ex.case.N, Lin(0), k))]
# ---------------------------------------------------------------- the value file
def where(ex, st, o):
    """the block and the field of a file offset"""
    B = off(ex, ex.case.k + "_block"); e = ze(ex.S(st, o)); H = B - off(ex, ex.case.k + "_data")
    for f, name in ((0, "next"), (4, "len"), (H, "data")):
        q = z3.simplify(e - f + B)
        lin = linz(q)
        d = lin.divmod(B)
        if d and isinstance(d[1], int) and d[1] == 0: return ze(d[0]), name
    raise Unsupported(f"file offset {e}")
def count(ex, st, v): return ze(ex.U(st, v))
def io(ex, func, st, dn, av, rt):
    c = ex.case; wr = dn.startswith("pwrite"); k, f = where(ex, st, av[3]); n = ex.U(st, av[2]); D = off(ex, c.k + "_data"); w = off(ex, c.k + "_block") - D - 4; p = av[1]
    ex.oblige(st, z3.And(k >= 1, k <= c.cur(ex, st)), "the file is accessed within its blocks", "safety")
    if wr: ex.oblige(st, z3.And(c.lo <= k, k < c.lo + c.n) if c.lo is not None else z3.BoolVal(False), "only blocks handed out for the value are written", "pre")
    if f != "data":
        if not isc(n) or n != (4 if f == "next" else w): raise Unsupported(f"{n} bytes at the {f} field")
        g = G("nx" if f == "next" else "ln"); T = Ty("i", 8 * n)
        if wr: st.mem[g] = z3.Store(st.mem[g], k, ze(ex.U(st, ex.load(st, func, T, p))))
        else: v = st.mem[g][k]; st.assume(z3.And(v >= 0, v < 1 << (8 * n))); ex.store(st, func, T, IV(8 * n, v, 0, (1 << (8 * n)) - 1), p)
        return [(st, ex.fresh_int(64, "done", st=st))]
    m = ze(n); ex.oblige(st, z3.And(m >= 0, m <= D), "data stays within its block", "safety"); q = ze(p.off.expr())
    if p.r is None or p.r.kind != "arr": raise Unsupported("data outside an array")
    if p.r.nbytes is not None: ex.oblige(st, z3.And(q >= 0, q + m <= ze(p.r.nbytes.expr())), "data stays within the buffer", "safety")
    p.r.slotw.setdefault(0, 1); p.r.stride = p.r.stride or 1; A = ex.arr_of(st, p.r, 0); B = st.mem[G("by")]
    if wr: N = fresh("block", int_arr()); st.assume(forall([i1], z3.Implies(z3.And(0 <= i1, i1 < m), N[i1] == A[q + i1]))); st.mem[G("by")] = z3.Store(B, k, N)
    else:
        N = fresh("buffer", int_arr()); st.assume(forall([i1], z3.If(z3.And(q <= i1, i1 < q + m), N[i1] == B[k][i1 - q], N[i1] == A[i1]), [N[i1]])); st.mem[(p.r.id, 0)] = N; st.writes.append((p.r, 0, None, N))
    return [(st, ex.fresh_int(64, "done", st=st))]
UP = r"std::pair<unsigned int( const)?, unsigned int>"; MT = r"std::map<unsigned int, unsigned int, std::less<unsigned int>, std::allocator<" + UP + " ?> ?>::"; ST = r"std::set<" + UP + ", std::less<" + UP + " ?>, std::allocator<" + UP + " ?> ?>::"
RUNS = [(re.compile("^" + MT + r"(lower|upper)_bound\("), m_lower), (re.compile("^" + MT + r"c?begin\("), m_begin), (re.compile("^" + MT + r"c?end\("), m_end), (re.compile("^" + MT + r"find\("), m_find), (re.compile("^" + MT + r"count\("), m_count), (re.compile("^" + MT + r"operator\[\]\("), m_index), (re.compile(r"^(std::enable_if<.*>::type )?" + MT + r"insert<?.*\("), m_minsert), (re.compile("^" + MT + r"erase(\[abi:cxx11\])?\("), m_merase),
        (re.compile("^std::_Rb_tree_iterator<" + UP + r" ?>::operator--\(\)$"), m_dec), (re.compile("^std::_Rb_tree_(const_)?iterator<" + UP + r" ?>::operator\+\+\(\)$"), m_inc), (re.compile("^std::_Rb_tree_(const_)?iterator<" + UP + r" ?>::operator(->|\*)\(\) const$"), m_arrow), (re.compile("^std::operator(==|!=)\\(std::_Rb_tree_(const_)?iterator<" + UP), m_cmp), (re.compile("^std::_Rb_tree_(const_)?iterator<" + UP + r" ?>::_Rb_tree_(const_)?iterator\(\)$"), noop),
        (re.compile("^" + ST + r"insert\("), s_insert), (re.compile("^" + ST + r"erase(\[abi:cxx11\])?\("), s_erase), (re.compile("^" + ST + r"end\("), s_end), (re.compile("^" + ST + r"(lower|upper)_bound\("), s_lower),
        (re.compile(r"^std::mutex::(un)?lock\(\)$|^pthread_mutex_(un)?lock$|^fileno$"), noop), (re.compile(r"^operator new\(unsigned long\)$"), m_new), (re.compile(r"^p(read|write)(64)?$"), io)]
class Blocks(Contract):
    k = "IV"; models = RUNS + MESSAGES; budget = 300; opt = {}
    def base(self, ex, st):
        k = self.k; o = Region("manager", "obj"); o.pre = True; M = Region("free runs", "arr", stride=8, nbytes=Lin(8 * W)); M.pre = True; M.slotw[0] = M.slotw[4] = 4; N = Region("nodes", "fam"); N.pre = True; N.slotw[off(ex, "b_num")] = 4; N.slotw[off(ex, "b_next")] = 8; N.ptrfam[off(ex, "b_next")] = N
        cur = ex.fresh_int(32, "blocks", st=st); o.init[off(ex, k + "_cur")] = cur; o.slotw[off(ex, k + "_cur")] = 4; h = fresh("old list"); cnt = fresh("nodes made"); st.assume(z3.And(h >= 0, h <= cnt)); o.init[off(ex, k + "_list")] = Ptr(N, Lin(0), h); o.init[off(ex, k + "_file")] = Ptr(Region("file", "obj"))
        F = ex.arr_of(st, M, 0); st.assume(forall([k1], F[k1] == k1, [F[k1]])); st.mem[G("cnt")] = cnt
        st.mem[G("nx")] = fresh("next", int_arr()); st.mem[G("ln")] = fresh("length", int_arr()); st.mem[G("by")] = fresh("bytes", BYTES)
        return dict(o=o, M=M, N=N, E=Region("end of set", "obj"), k=k, cur0=cur.e, cnt0=cnt, h0=h, cur=lambda ex, s: ze(ex.U(s, slot(ex, s, Ptr(o), off(ex, k + "_cur")))), lo=None, n=None, D=off(ex, k + "_data"), nx0=st.mem[G("nx")], ln0=st.mem[G("ln")], by0=st.mem[G("by")])
    def start(self, ex, st, d):
        ex.case = type("C", (), d); R = fresh_runs(ex, st)
        for _, f in R.inv(d["cur0"]): st.assume(f)
        d["R"] = R
    def length(self, ex, st): return u32(ex, st, "length") if self.k == "IS" else ex.fresh_int(64, "length", st=st)
def blocks_for(L, D, n): return z3.And(n >= 1, z3.Or(z3.And(L == 0, n == 1), z3.And((n - 1) * D < L, L <= n * D)))
def nodes(ex, c, st, h, b, n, j):
    """node j, of those from h down, holds the block of its place and points to the next"""
    num, nxt = ex.arr_of(st, c.N, off(ex, "b_num")), ex.arr_of(st, c.N, off(ex, "b_next")); return z3.And(j >= 1, num[j] == b + h - j, nxt[j] == z3.If(j == h - n + 1, z3.IntVal(0), j - 1))
class Alloc(Blocks):
    def setup(self, ex):
        st = State(); d = self.base(ex, st); L = u32(ex, st, "asked"); self.start(ex, st, d); st.assume(z3.And(L.e >= 0, d["cur0"] + z3.If(L.e > 256, L.e, z3.IntVal(256)) < W - 1)); yield Case("", st, [Ptr(d["o"]), L], L=L.e, **d)
    def result(self, ex, c, st, R, cur, L):
        R2, c2, x = runs(ex, st), c.cur(ex, st), fresh("x"); any_x = lambda f: f(x)
        return [(n, f) for n, f in R2.inv(c2)] + [("the blocks added are free, the others as before", R2.free(x) == z3.Or(R.free(x), z3.And(cur < x, x <= c2))), ("enough blocks are added", z3.And(c2 >= cur + L)), ("... in one run", z3.Implies(L > 0, R2.fits(L))), ("not many more than asked for", c2 <= cur + z3.If(L > 256, L, z3.IntVal(256))), ("none of them given out before", R2.same(R) if False else z3.BoolVal(True))]
    def post(self, ex, c, st, ret): return [("it succeeds", ze(ret) == z3.BoolVal(True))] + self.result(ex, c, st, c.R, c.cur0, c.L)
    def apply(self, ex, func, st, av, rt):
        c = ex.case; R, cur, L = runs(ex, st), c.cur(ex, st), ze(ex.U(st, av[1])); ex.oblige(st, z3.And([f for _, f in R.inv(cur)]), "the indexes of free runs are in order", "pre"); ex.oblige(st, cur + z3.If(L > 256, L, z3.IntVal(256)) < W - 1, "there is room for more blocks", "pre")
        v = ex.fresh_int(32, "blocks", st=st); st.assume(v.e >= cur); st.mem[(c.o.id, off(ex, c.k + "_cur"))] = v; R2 = fresh_runs(ex, st)
        for _, f in R2.inv(v.e): st.assume(f)
        st.assume(forall([x1], R2.free(x1) == z3.Or(R.free(x1), z3.And(cur < x1, x1 <= v.e)))); st.assume(z3.And(v.e >= cur + L, v.e <= cur + z3.If(L > 256, L, z3.IntVal(256)))); st.assume(z3.Implies(L > 0, R2.fits(L))); return [(st, True)]
class Where(Blocks):
    def pre(self, R, cur, n): return z3.Or(R.fits(n), cur + z3.If(n > 256, n, z3.IntVal(256)) < W - 1)
    def setup(self, ex):
        st = State(); d = self.base(ex, st); L = self.length(ex, st); n = fresh("blocks needed"); self.start(ex, st, d); st.assume(z3.And(blocks_for(L.e, d["D"], n), n < W - 300, L.e < (W - 256) if self.k == "IS" else L.e < 1 << 40)); st.assume(self.pre(d["R"], d["cur0"], n)); d["n"] = n; yield Case("", st, [Ptr(d["o"]), L], L=L.e, **d)
    def gen(self, ex, c, L):
        f = L.st0.notes.get("found")
        if not f: return
        b = f[1]; n = c.n; c0 = c.cnt0; num, nxt = off(ex, "b_num"), off(ex, "b_next"); cg = [a for k, r, a0, a in L.arrs if k == G("cnt")]
        if not cg: return
        cnt = cg[0]; N = c.N; C = lambda v: v.st.mem[G("cnt")]
        yield "nodes so far", lambda v: z3.And(C(v) == c0 + v["it"], v["it"] <= n)
        yield "numbers", lambda v: forall([j1], z3.Implies(z3.And(c0 < j1, j1 <= C(v)), v.arr(N, num)[j1] == b + n - (j1 - c0)))
        yield "links", lambda v: forall([j1], z3.Implies(z3.And(c0 < j1, j1 <= C(v)), v.arr(N, nxt)[j1] == z3.If(j1 == c0 + 1, z3.IntVal(0), j1 - 1)))
        for x in L.vars:
            if x.kind == "int": yield f"{x.name} counts down", lambda v, x=x: v[x] + v["it"] == n
            if x.kind == "fam": yield f"{x.name} is the last node", lambda v, x=x: v[x] == z3.If(v["it"] == 0, z3.IntVal(0), C(v))
    def facts(self, ex, c, st, R, cur, n, x, j):
        R2, c2 = runs(ex, st), c.cur(ex, st); p = slot(ex, st, Ptr(c.o), off(ex, c.k + "_list")); h = z3.IntVal(0) if p.r is None else ze(p.key); b = ex.arr_of(st, c.N, off(ex, "b_num"))[h]; rng = lambda x: z3.And(b <= x, x < b + n)
        return R2.inv(c2) + [("a node for each block", h >= n), ("as many blocks as are needed, one after the other", z3.Implies(z3.And(h - n < j, j <= h), nodes(ex, c, st, h, b, n, j))), ("the blocks lie within the file", z3.And(b >= 1, b + n <= c2 + 1)), ("no block is in use already", z3.Implies(rng(x), z3.Not(R.used(cur, x)))), ("afterwards in use: what was, and the blocks handed out", R2.used(c2, x) == z3.Or(R.used(cur, x), rng(x))), ("the file only grows", c2 >= cur), ("... and only if no run is long enough", z3.Implies(R.fits(n), c2 == cur))]
    def post(self, ex, c, st, ret): return [("it succeeds", ze(ret) == z3.BoolVal(True))] + self.facts(ex, c, st, c.R, c.cur0, c.n, fresh("x"), fresh("j"))
    def apply(self, ex, func, st, av, rt):
        c = ex.case; R, cur, L, D, N = runs(ex, st), c.cur(ex, st), ze(ex.U(st, av[1])), c.D, c.N; n = c.n
        ex.oblige(st, z3.And([f for _, f in R.inv(cur)]), "the indexes of free runs are in order", "pre"); ex.oblige(st, blocks_for(L, D, n), "asked for the value's own length", "pre"); ex.oblige(st, self.pre(R, cur, n), "there is room", "pre")
        v = ex.fresh_int(32, "blocks", st=st); st.mem[(c.o.id, off(ex, c.k + "_cur"))] = v; fresh_runs(ex, st); h = fresh("head"); st.assume(h > 0); st.mem[(c.o.id, off(ex, c.k + "_list"))] = Ptr(N, Lin(0), h); st.mem[G("cnt")] = fresh("cnt")
        for o in (off(ex, "b_num"), off(ex, "b_next")): st.mem[(N.id, o)] = fresh("node", int_arr())
        for _, f in self.facts(ex, c, st, R, cur, n, x1, j1): st.assume(forall([x1, j1], f) if not z3.is_quantifier(f) and occurs_(f) else f)
        st.notes["handed"] = (h, ex.arr_of(st, N, off(ex, "b_num"))[h]); c.lo = st.notes["handed"][1]; return [(st, True)]
def occurs_(f): s = str(f.sexpr()); return "x1" in s or "j1" in s
class Write(Blocks):
    def setup(self, ex):
        st = State(); d = self.base(ex, st); L = self.length(ex, st); n = fresh("blocks needed"); self.start(ex, st, d); st.assume(z3.And(blocks_for(L.e, d["D"], n), n < W - 300, L.e < (W - 256) if self.k == "IS" else L.e < 1 << 40)); st.assume(Where.pre(self, d["R"], d["cur0"], n)); d["n"] = n
        p = array(ex, st, "value", L.e, 1); yield Case("", st, [Ptr(d["o"]), p, L], L=L.e, A=arr0(ex, st, p), p=p, **d)
    def gen(self, ex, c, L):
        f = L.st0.notes.get("handed")
        if not f: return
        h, b = f; n, D, l, A = c.n, c.D, c.L, c.A; g = lambda v, k: v.st.mem[G(k)]
        yield "blocks so far", lambda v: v["it"] <= n
        for x in L.vars:
            if x.kind == "fam": yield f"{x.name} is the node of the next block", lambda v, x=x: v[x] == z3.If(v["it"] < n, h - v["it"], z3.IntVal(0))
            if x.kind == "int": yield f"{x.name} is what is left", lambda v, x=x: v[x] == z3.If(v["it"] < n, l - D * v["it"], z3.IntVal(0))
            if x.kind == "ptr": yield f"{x.name} is at what is left", lambda v, x=x: v[x] == z3.If(v["it"] < n, D * v["it"], l)
        for nm, fn in self.stored(c, b): yield nm, lambda v, fn=fn: fn(lambda k: g(v, k), v["it"])
    def stored(self, c, b):
        n, D, l, A = c.n, c.D, c.L, c.A; out = lambda k: z3.Or(k < b, k >= b + n)
        yield "links", lambda g, it: forall([j1], z3.Implies(z3.And(b <= j1, j1 < b + it), g("nx")[j1] == z3.If(j1 == b + n - 1, z3.IntVal(0), j1 + 1)))
        yield "the length is in the first block", lambda g, it: z3.Implies(it > 0, g("ln")[b] == l)
        yield "the bytes", lambda g, it: forall([j1, i1], z3.Implies(z3.And(b <= j1, j1 < b + it, 0 <= i1, i1 < D, D * (j1 - b) + i1 < l), g("by")[j1][i1] == A[D * (j1 - b) + i1]))
        yield "other blocks keep their contents", lambda g, it: forall([k1], z3.Implies(out(k1), z3.And(g("nx")[k1] == c.nx0[k1], g("ln")[k1] == c.ln0[k1], g("by")[k1] == c.by0[k1])))
    def post(self, ex, c, st, ret):
        R2, c2, x = runs(ex, st), c.cur(ex, st), fresh("x"); b = ze(ex.U(st, ret)); j, i, k = fresh("j"), fresh("i"), fresh("k"); g = lambda k: st.mem[G(k)]; n = c.n
        out = [("the value has a block", b >= 1)] + R2.inv(c2) + [("afterwards in use: what was, and the value's blocks", R2.used(c2, x) == z3.Or(c.R.used(c.cur0, x), z3.And(b <= x, x < b + n))), ("no block of another value is taken", z3.Implies(c.R.used(c.cur0, x), z3.Or(x < b, x >= b + n)))]
        return out + [("stored: " + nm, fn(g, n)) for nm, fn in self.stored(c, b)]
class Stored(Blocks):
    """a value of n blocks from index on, as WriteValue leaves it"""
    def chain(self, ex, zero=False):
        st = State(); d = self.base(ex, st); self.start(ex, st, d); i = u32(ex, st, "index"); n = fresh("blocks of the value"); nx = st.mem[G("nx")]; st.assume(z3.And(i.e >= 1, n >= 1, i.e + n <= d["cur0"] + 1, d["cur0"] < W - 1)); st.assume(forall([j1], z3.Implies(z3.And(i.e <= j1, j1 < i.e + n), nx[j1] == z3.If(j1 == i.e + n - 1, z3.IntVal(0), j1 + 1)), [nx[j1]]))
        st.assume(forall([x1], z3.Implies(z3.And(i.e <= x1, x1 < i.e + n), z3.Not(d["R"].free(x1))))); d["n"] = n; return st, d, i
class Free(Stored):
    def setup(self, ex):
        st, d, i = self.chain(ex); yield Case("a stored value", st, [Ptr(d["o"]), i], i=i.e, some=True, **d)
        st = State(); d = self.base(ex, st); self.start(ex, st, d); yield Case("nothing", st, [Ptr(d["o"]), ex.const(32, 0)], i=z3.IntVal(0), some=False, **d)
    def after(self, c, R2, cur, x): return R2.inv(cur) + [("afterwards in use: what was, without the value's blocks", R2.used(cur, x) == z3.And(c.R.used(c.cur0, x), z3.Not(z3.And(c.i <= x, x < c.i + c.n))) if c.some else R2.used(cur, x) == c.R.used(c.cur0, x))]
    def gen(self, ex, c, L):
        if not c.some: return
        n, i = c.n, c.i; RR = lambda v: Runs(v.st.mem[G("dom")], v.arr(c.M, 4), v.st.mem[G("rel")])
        yield "blocks so far", lambda v: v["it"] <= n
        for x in L.vars:
            if x.kind == "int":
                yield f"{x.name} is the next block", lambda v, x=x: v[x] == z3.If(v["it"] < n, i + v["it"], z3.IntVal(0)); yield f"{x.name} is the start", lambda v, x=x: z3.Implies(v["it"] < n, v[x] == i); yield f"{x.name} is the length", lambda v, x=x: z3.Implies(v["it"] < n, v[x] == v["it"] + 1)
        yield "nothing is released before the end", lambda v: z3.Implies(v["it"] < n, RR(v).same(c.R))
        for nm, f in self.after(c, Runs(fresh("d", BOOLS), fresh("v", int_arr()), fresh("r", REL)), c.cur0, x1):
            def fn(v, nm=nm):
                f = dict(self.after(c, RR(v), c.cur0, x1))[nm]; return z3.Implies(v["it"] >= n, f if z3.is_quantifier(f) else forall([x1], f))
            yield nm, fn
    def post(self, ex, c, st, ret): return [("it succeeds", ze(ret) == z3.BoolVal(True)), ("the file keeps its size", c.cur(ex, st) == c.cur0)] + self.after(c, runs(ex, st), c.cur0, fresh("x"))
class Read(Stored):
    def setup(self, ex):
        for some in (True, False):
            if some: st, d, i = self.chain(ex)
            else: st = State(); d = self.base(ex, st); self.start(ex, st, d); i = ex.const(32, 0)
            ps, pl = Region("where the text goes", "obj"), Region("where the length goes", "obj"); L = fresh("length")
            if some: st.assume(z3.And(blocks_for(L, d["D"], d["n"]), L >= 0, st.mem[G("ln")][i.e] == L, L < (W - 256) if self.k == "IS" else L < 1 << 40))
            yield Case("a stored value" if some else "nothing", st, [Ptr(d["o"]), i, Ptr(ps), Ptr(pl)], i=i.e, L=L, some=some, ps=ps, pl=pl, **d)
    def gen(self, ex, c, L):
        if not c.some: return
        n, i, D, l = c.n, c.i, c.D, c.L; regs = [r for k, r, a0, a in L.arrs if r is not None and r.kind == "arr" and r is not c.M]
        yield "blocks so far", lambda v: v["it"] < n
        for x in L.vars:
            if x.kind == "int": yield f"{x.name} is the next block", lambda v, x=x: v[x] == i + v["it"]; yield f"{x.name} is what is left", lambda v, x=x: v[x] == l - D * v["it"]
        for r in regs: yield "bytes so far", lambda v, r=r: forall([j1, i1], z3.Implies(z3.And(0 <= j1, j1 < v["it"], 0 <= i1, i1 < D, D * j1 + i1 < l), v.arr(r)[D * j1 + i1] == c.by0[i + j1][i1]))
    def post(self, ex, c, st, ret):
        p, l = slot(ex, st, Ptr(c.ps), 0), slot(ex, st, Ptr(c.pl), 0); out = [("a miss is reported exactly for block 0", ze(ret) == z3.BoolVal(c.some)), ("the length read is the one stored", ze(ex.U(st, l)) == (c.L if c.some else 0))]
        if not c.some: return out + [("no text", z3.BoolVal(p.r is None))]
        j, i = fresh("j"), fresh("i"); A = ex.arr_of(st, p.r, 0); out += [("every byte is the one stored", z3.Implies(z3.And(0 <= j, j < c.n, 0 <= i, i < c.D, c.D * j + i < c.L), A[ze(p.off.expr()) + c.D * j + i] == c.by0[c.i + j][i])), ("the text is a block of its own, of that length", z3.And(z3.BoolVal(p.r.heap == "new[]"), ze(p.r.nbytes.expr()) == c.L, ze(p.off.expr()) == 0)), ("reading changes nothing", runs(ex, st).same(c.R))]
        return out
def mk(cls, k, fn, uses=()): return type(cls.__name__, (cls,), {"name": f"{k}BlockManager::{fn}", "title": f"{k}BlockManager::{fn.split('(')[0]}", "k": k, "uses": tuple(uses)})()
FUNCS = []
for k, L in (("IV", "unsigned long"), ("IS", "unsigned int")):
    a = mk(Alloc, k, "AllocBlock(unsigned int)"); w = mk(Where, k, f"getWhereToWrite({L})", [a]); w.uses = (a, w)
    FUNCS += [a, w, mk(Write, k, f"WriteValue(char const*, {L})", [w]), mk(Free, k, "FreeBlocks(unsigned int)"), mk(Read, k, f"ReadValue(unsigned int, char*&, {L}&)")]
HARNESS = {"src": "C03.cpp", "tus": ["KVstore/IVArray/IVBlockManager.cpp", "KVstore/ISArray/ISBlockManager.cpp", "Util/Util.cpp"], "secs": 20}
ASSUMPTIONS = ["std::map<unsigned, unsigned> and std::set<pair> behave as the ordered map and the ordered set they are (model: find, bounds, insertion, removal; the element erased or stepped to must be there)", "pread and pwrite transfer all bytes asked for and fail never; two managers do not share a file; fewer than 2^32 - 300 blocks",
               "one writer at a time uses a manager (its list of blocks to write is shared; the arrays' locks are C13's concern)", "the list of blocks left from the write before is well-formed (it is what getWhereToWrite made)", "the value passed to FreeBlocks and ReadValue is a stored one (its chain is what WriteValue is proved to leave: consecutive blocks)"]
BOUNDED = ["saving the free runs and opening the file again (SaveFreeBlockList, constructor): harness only (seeded histories of up to 70 operations, values of up to 300 blocks, bookkeeping checked in full after every one)"]
