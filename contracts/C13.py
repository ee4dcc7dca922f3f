"""C13: keyed value files.  A text is abstracted to an identity with a length and a content; the values on disk are a ghost table (which blocks start a stored value, its length and
content: what C03 proves of the block managers).  What a key holds is a function of its entry: the cached text, or the value on disk.  Every operation is proved to change what its
own key holds as it should and nobody else's, to keep the invariant of the entries and the chain of cached entries intact, and to release only blocks that are in use."""
import re, os
from spec import *
from vals import *
import models
from C12 import off

ID = "C13"
TUS = ["KVstore/IVArray/IVArray.cpp", "KVstore/ISArray/ISArray.cpp", "KVstore/IVArray/IVEntry.cpp", "KVstore/ISArray/ISEntry.cpp", "Util/VList.cpp", "Util/Bstr.cpp", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/inst/C13.cpp"]
W = 1 << 32; BOOLS = z3.ArraySort(z3.IntSort(), z3.BoolSort())
LEN, CON = z3.Function("length of a text", z3.IntSort(), z3.IntSort()), z3.Function("content of a text", z3.IntSort(), z3.IntSort())
k1, k2, s1 = z3.Ints("k1 k2 s1")
G = lambda n: ("ghost", n)
FLAGS = ("used", "dirty", "cache", "pin"); NUMS = ("store", "prev", "next", "value"); DISK = ("live", "flen", "fcon")
class View:
    """the entries, the chain of cached entries, and the values on disk, at a state"""
    def __init__(s, ex, st, c):
        for f in FLAGS + NUMS: setattr(s, f, ex.arr_of(st, c.A, c.o[f]) if f in c.o else None)
        s.nopin = s.pin is None
        if s.nopin: s.pin = z3.K(z3.IntSort(), z3.IntVal(0))
        s.head = ze(ex.S(st, slot(ex, st, Ptr(c.H), c.o["next"]))); s.tail = ze(ex.S(st, slot(ex, st, Ptr(c.T), c.t["tail"])))
        s.live, s.flen, s.fcon, s.iv = (st.mem[G(g)] for g in DISK + ("iv",)); s.n = c.n; s.mx = c.mx; s.gpos, s.gat, s.gm = (st.mem[G(g)] for g in ("pos", "at", "m")); s.gsum = st.mem[G("sum")]; s.size = ze(ex.U(st, slot(ex, st, Ptr(c.T), c.t["size"])))
    def is_(s, f, k): return z3.BoolVal(False) if f == 'pin' and s.nopin else getattr(s, f)[k] == 1
    def q(s, k): return z3.And(s.is_("cache", k), z3.Not(s.is_("pin", k)))
    def has(s, k): return s.is_("used", k)
    def con(s, k): return z3.If(s.is_("cache", k), CON(s.value[k]), s.fcon[s.store[k]])
    def len(s, k): return z3.If(s.is_("cache", k), LEN(s.value[k]), s.flen[s.store[k]])
    def key(s, k): return z3.And(0 <= k, k < s.n)
    def entry(s, k):
        """what is true of every entry"""
        u, d, c, p = (s.is_(f, k) for f in FLAGS); st, v = s.store[k], s.value[k]
        return [("cached: a text, not cached: none", c == (v > 0)), ("a cached value has at least one byte", z3.Implies(c, LEN(v) >= 1)), ("a value not cached is on disk", z3.Implies(z3.And(u, z3.Not(c)), st > 0)), ("blocks of an entry are in use, with at least one byte", z3.Implies(st > 0, z3.And(s.live[st], s.flen[st] >= 1))),
                ("an unused entry holds nothing", z3.Implies(z3.Not(u), z3.And(st == 0, z3.Not(c)))), ("pinned: cached", z3.Implies(p, c)), ("the disk holds the value of an entry that is not dirty", z3.Implies(z3.And(u, z3.Not(d)), z3.And(st > 0, s.fcon[st] == s.con(k), s.flen[st] == s.len(k)))), ("the key file has the place of an entry that is not dirty", z3.Implies(z3.Not(d), s.iv[k] == st))]
    def inv(s, x=None):
        ok = lambda *ks: z3.And([s.key(k) for k in ks] + ([k != x for k in ks] if x is not None else []))
        return [(n, forall([k1], z3.Implies(ok(k1), f))) for n, f in s.entry(k1)] + [("no blocks belong to two entries", forall([k1, k2], z3.Implies(z3.And(ok(k1, k2), k1 < k2), z3.Or(s.store[k1] == 0, s.store[k1] != s.store[k2]))))]
    def line(s, cut=None, end=None, when=None, size=None):
        """the order of the cached entries: where each is, which is at each place, how many; cut: without the one at that place; end: with this key at the end"""
        pos, at, m, sm = (lambda k: s.gpos[k]), (lambda p: s.gat[p]), s.gm, (lambda p: s.gsum[p])
        if cut is not None: pos, at, m = (lambda k, f=pos: f(k) - z3.If(f(k) > cut, 1, 0)), (lambda p, f=at: z3.If(p >= cut, f(p + 1), f(p))), m - 1; sm = lambda p, f=sm: z3.If(p > cut, f(p + 1) - (f(cut + 1) - f(cut)), f(p))
        if end is not None: pos, at, m = (lambda k, f=pos, m=m: z3.If(k == end, m, f(k))), (lambda p, f=at, m=m: z3.If(p == m, end, f(p))), m + 1; sm = lambda p, f=sm, m=m: z3.If(p == m, f(m - 1) + size, f(p))
        if when is None: return pos, at, m, sm
        return (lambda k: z3.If(when, pos(k), s.gpos[k])), (lambda p: z3.If(when, at(p), s.gat[p])), z3.If(when, m, s.gm), (lambda p: z3.If(when, sm(p), s.gsum[p]))
    def chain(s, line=None):
        pos, at, m, sm = line or s.line(); ok = lambda p: z3.And(0 <= p, p < m); a = at(s1)
        return [("every cached entry has its place", forall([k1], z3.Implies(z3.And(s.key(k1), s.q(k1)), z3.And(ok(pos(k1)), at(pos(k1)) == k1)))), ("every place has its entry", forall([s1], z3.Implies(ok(s1), z3.And(s.key(a), s.q(a), pos(a) == s1)))),
                ("the entry after", forall([s1], z3.Implies(ok(s1), s.next[a] == z3.If(s1 + 1 < m, at(s1 + 1), -1)))), ("the entry before", forall([s1], z3.Implies(ok(s1), s.prev[a] == z3.If(s1 > 0, at(s1 - 1), -1)))), ("the ends of the chain", z3.And(m >= 0, s.head == z3.If(m > 0, at(0), -1), s.tail == z3.If(m > 0, at(m - 1), -1))),
                ("the size of what is cached", z3.And(sm(z3.IntVal(0)) == 0, forall([s1], z3.Implies(ok(s1), sm(s1 + 1) == sm(s1) + LEN(s.value[a]))))), ("... grows along the chain", forall([s1, k1], z3.Implies(z3.And(0 <= s1, s1 < k1, k1 <= m), sm(s1) < sm(k1))))]
    def sized(s, line=None): pos, at, m, sm = line or s.line(); return [("the size counted is that of what is cached", s.size == sm(m)), ("the cache stays within its limit", s.size <= s.mx)]
    def keeps(s, o, k):      # key k holds at s what it held at o
        return z3.And(s.has(k) == o.has(k), z3.Implies(o.has(k), z3.And(s.con(k) == o.con(k), s.len(k) == o.len(k))))
    def same(s, o, k, *fs): return z3.And([getattr(s, f)[k] == getattr(o, f)[k] for f in fs])
ENTRY = FLAGS + NUMS
def others(a, b, x, *fs): return forall([k1], z3.Implies(z3.And(a.key(k1), k1 != x), a.same(b, k1, *fs)))
def put(st, r, o, N): st.mem[(r.id, o)] = N; st.writes.append((r, o, None, N))
def havoc(ex, st, c, fs, chain=False, disk=False):
    for f in fs:
        if f in c.o: put(st, c.A, c.o[f], fresh(f, int_arr()))
    if chain:
        st.mem[G("pos")] = fresh("place", int_arr()); st.mem[G("at")] = fresh("at place", int_arr()); st.mem[G("m")] = fresh("places"); st.mem[G("sum")] = fresh("sizes", int_arr())
        for f in ("prev", "next"): put(st, c.A, c.o[f], fresh(f, int_arr()))
        for r, o in ((c.H, c.o["next"]), (c.T, c.t["tail"])): v = ex.fresh_int(32, "end of the chain", signed=True, st=st); st.mem[(r.id, o)] = v; st.writes.append((r, o, None, v))
    if disk:
        st.mem[G("live")] = fresh("live", BOOLS); st.mem[G("flen")] = fresh("flen", int_arr()); st.mem[G("fcon")] = fresh("fcon", int_arr())
    if "size" in fs or chain: v = ex.fresh_int(32, "cache size", st=st); st.mem[(c.T.id, c.t["size"])] = v; st.writes.append((c.T, c.t["size"], None, v))
    ranges(ex, st, c)
def ranges(ex, st, c):
    v = View(ex, st, c)
    for f in FLAGS: 
        if f in c.o: st.assume(forall([k1], z3.Or(getattr(v, f)[k1] == 0, getattr(v, f)[k1] == 1), [getattr(v, f)[k1]]))
    st.assume(forall([k1], z3.And(v.store[k1] >= 0, v.store[k1] < W), [v.store[k1]])); st.assume(forall([k1], v.value[k1] >= 0, [v.value[k1]])); st.assume(forall([k1], z3.And(v.prev[k1] >= -1, v.prev[k1] < 1 << 31, v.next[k1] >= -1, v.next[k1] < 1 << 31), [z3.MultiPattern(v.prev[k1], v.next[k1])]))
# ---- texts and values on disk
def tkey(c, p):
    if isinstance(p, Ptr) and p.r is None: return z3.IntVal(0)
    if not isinstance(p, Ptr) or p.r is not c.X or not (p.off.isconst() and p.off.c == 0): raise Unsupported("not the start of a text")
    return ze(p.key)
def newtext(ex, st, n, con=None):
    """a text of its own: none of those there before"""
    c = ex.case; k = fresh("text"); v = View(ex, st, c); st.assume(k > 0); st.assume(forall([k1], v.value[k1] != k)); st.assume(LEN(k) == n); own = st.notes.get("texts", ())
    for j in own: st.assume(j != k)
    st.notes["texts"] = own + (k,)
    if con is not None: st.assume(CON(k) == con)
    return Ptr(c.X, Lin(0), k)
def m_text(ex, func, st, dn, av, rt):
    if getattr(ex.case, "X", None) is None: return NotImplemented
    return [(st, newtext(ex, st, ze(ex.U(st, av[0]))))]
def m_cpy(ex, func, st, dn, av, rt):
    c = ex.case
    if getattr(c, "X", None) is None or not isinstance(av[0], Ptr) or av[0].r is not c.X: return NotImplemented
    d, s, n = tkey(c, av[0]), tkey(c, av[1]), ze(ex.U(st, av[2])); ex.oblige(st, z3.And(n <= LEN(d), n <= LEN(s)), "copying stays inside the two texts", "safety")
    if not any(d is j or d.eq(j) for j in st.notes.get("texts", ())) or ("copied", str(d)) in st.notes: raise Unsupported("text written twice")
    st.notes[("copied", str(d))] = True; st.assume(z3.Implies(z3.And(n == LEN(d), n == LEN(s)), CON(d) == CON(s))); return [(st, None)]
def m_write(ex, func, st, dn, av, rt):
    c = ex.case; t, n = tkey(c, av[1]), ze(ex.U(st, av[2])); v = View(ex, st, c); s = ex.fresh_int(32, "first block", st=st); ex.oblige(st, n >= 1, "a value written has at least one byte", "pre"); ex.oblige(st, n == LEN(t), "all of the text is written", "pre")
    st.assume(z3.And(s.e >= 1, z3.Not(v.live[s.e]))); st.mem[G("live")] = z3.Store(v.live, s.e, z3.BoolVal(True)); st.mem[G("flen")] = z3.Store(v.flen, s.e, n); st.mem[G("fcon")] = z3.Store(v.fcon, s.e, CON(t)); return [(st, s)]
def m_free(ex, func, st, dn, av, rt):
    v = View(ex, st, ex.case); s = ze(ex.U(st, av[1])); ex.oblige(st, z3.Or(s == 0, v.live[s]), "blocks released are those of a stored value", "pre"); st.mem[G("live")] = z3.Store(v.live, s, z3.And(s == 0, v.live[s])); return [(st, True)]
def m_read(ex, func, st, dn, av, rt):
    c = ex.case; v = View(ex, st, c); s = ze(ex.U(st, av[1])); out = []; w = 64 if c.k == "IV" else 32
    for s2, zero in ex.branch(st, s == 0):
        if zero: ex.store(s2, func, Ty("ptr"), NULL, av[2]); ex.store(s2, func, Ty("i", w), ex.const(w, 0), av[3]); out.append((s2, False)); continue
        ex.oblige(s2, v.live[s], "blocks read are those of a stored value", "pre"); n = ex.fresh_int(w, "length", st=s2); s2.assume(n.e == v.flen[s]); ex.store(s2, func, Ty("ptr"), newtext(ex, s2, n.e, v.fcon[s]), av[2]); ex.store(s2, func, Ty("i", w), n, av[3]); out.append((s2, True))
    return out
def m_one(ex, func, st, dn, av, rt): return [(st, ex.const(32, 3))]
def m_unit(ex, func, st, dn, av, rt): return [(st, None if rt.k == "void" else True)]
def m_pwrite(ex, func, st, dn, av, rt):
    c = ex.case; n, o = ex.U(st, av[2]), av[3]; q = (o.lin if getattr(o, "lin", None) is not None else models.linz(ex.U(st, o))).divmod(4)
    if not (isc(n) and n == 4) or q is None or q[1]: raise Unsupported("write of something else")
    x = ze(ex.U(st, ex.load(st, func, Ty("i", 32), av[1]))); i = ze(q[0]); iv = st.mem[G("iv")]; st.mem[G("iv")] = z3.Store(iv, i - 1, x); return [(st, ex.const(64, 4))]
def m_skip(ex, func, st, dn, av, rt): return [(st, None)]
BM = [(re.compile(r"^I[VS]BlockManager::WriteValue"), m_write), (re.compile(r"^I[VS]BlockManager::FreeBlocks"), m_free), (re.compile(r"^I[VS]BlockManager::ReadValue"), m_read), (re.compile(r"^I[VS]BlockManager::SaveFreeBlockList"), m_unit), (re.compile(r"^fileno$"), m_one), (re.compile(r"^pwrite(64)?$"), m_pwrite),
      (re.compile(r"^operator new\[\]\(unsigned long\)$"), m_text), (re.compile(r"^llvm\.memcpy\.p0\.p0\.i64"), m_cpy), (re.compile(r"^spinlock::|^Latch::|^spinrwlock::"), m_skip)]
# ---- the entries' own functions, on texts
class Bstr_(Contract):
    """contracts of setBstr, getBstr and release on one entry; proved below with a real text object"""
    budget = 30
    def at(self, ex, p):
        c = ex.case
        if getattr(c, "A", None) is None or not isinstance(p, Ptr) or p.r is not c.A: raise Unsupported("an entry of another table")
        q = p.off.divmod(c.o["entry"])
        if q is None or q[1] != 0: raise Unsupported("not an entry")
        return ze(q[0])
    def entry(self, ex, st, some):
        o = Region("entry", "obj"); o.pre = True; b = t = None; n = fresh("length"); st.assume(z3.And(n >= 0, n < 1 << (31 if self.k == "IS" else 40)))
        if some: b = Region("text object", "obj", heap="new"); b.pre = True; t = array(ex, st, "text", n, 1); t.r.heap = "new[]"; b.init[off(ex, "bstr_str")] = t; b.slotw[off(ex, "bstr_str")] = 8; v = ex.mk(64, n, 0, 1 << 40); b.init[off(ex, "bstr_len")] = v; b.slotw[off(ex, "bstr_len")] = 8
        vo = off(ex, self.k + "_value"); o.init[vo] = Ptr(b) if some else NULL; o.slotw[vo] = 8; return dict(o=o, b=b, t=t, n=n, vo=vo)
class SetB(Bstr_):
    def setup(self, ex):
        for some in (False, True):
            st = State(); d = self.entry(ex, st, some); m = fresh("new length"); st.assume(z3.And(m >= 0, m < W)); p = array(ex, st, "new text", m, 1); p.r.heap = "new[]"; w = 64 if self.k == "IV" else 32; yield Case("over a text" if some else "over none", st, [Ptr(d["o"]), p, ex.mk(w, m, 0, W - 1)], p=p, m=m, **d)
    def post(self, ex, c, st, ret):
        v = slot(ex, st, Ptr(c.o), c.vo); s, l = slot(ex, st, v, off(ex, "bstr_str")), slot(ex, st, v, off(ex, "bstr_len")); out = [("a text object of its own", z3.BoolVal(v.r is not None and v.r is not c.b and v.r.heap == "new")), ("it holds the text given", z3.BoolVal(s.r is c.p.r and s.off.isconst() and s.off.c == 0 and not st.freed.get(c.p.r.id))), ("... with its length", ze(ex.U(st, l)) == c.m)]
        return out + ([("the text before is released", z3.BoolVal(bool(st.freed.get(c.b.id)) and bool(st.freed.get(c.t.r.id))))] if c.b else [])
    def apply(self, ex, func, st, av, rt):
        c = ex.case; k = self.at(ex, av[0]); t = tkey(c, av[1]); ex.oblige(st, ze(ex.U(st, av[2])) == LEN(t), "the length given is the text's", "pre"); put(st, c.A, c.o["value"], z3.Store(ex.arr_of(st, c.A, c.o["value"]), k, t)); return [(st, None)]
class GetB(Bstr_):
    def setup(self, ex):
        for some in (False, True):
            for cp in (True, False):
                st = State(); d = self.entry(ex, st, some); ps, pl = Region("where the text goes", "obj"), Region("where the length goes", "obj"); yield Case(("a text" if some else "none") + (", copied" if cp else ""), st, [Ptr(d["o"]), Ptr(ps), Ptr(pl), cp], ps=ps, pl=pl, cp=cp, some=some, T=arr0(ex, st, d["t"]) if some else None, **d)
    def post(self, ex, c, st, ret):
        s, l = slot(ex, st, Ptr(c.ps), 0), slot(ex, st, Ptr(c.pl), 0); out = [("found exactly if there is a text", ze(ret) == z3.BoolVal(c.some)), ("its length", ze(ex.U(st, l)) == (c.n if c.some else 0))]
        if not c.some: return out + [("no text", z3.BoolVal(s.r is None))]
        i = fresh("i"); out.append(("its bytes", z3.Implies(z3.And(0 <= i, i < c.n), ex.arr_of(st, s.r, 0)[i] == c.T[i]))); out.append(("the text itself, or a copy of its own", z3.BoolVal(s.r is not c.t.r and s.r.heap == "new[]" if c.cp else s.r is c.t.r))); return out
    def apply(self, ex, func, st, av, rt):
        c = ex.case; k = self.at(ex, av[0]); v = View(ex, st, c); out = []; w = 64 if self.k == "IV" else 32; cp = av[3]
        if not isinstance(cp, bool): raise Unsupported("copy or not")
        for s2, none in ex.branch(st, v.value[k] == 0):
            if none: ex.store(s2, func, Ty("ptr"), NULL, av[1]); ex.store(s2, func, Ty("i", w), ex.const(w, 0), av[2]); out.append((s2, False)); continue
            t = v.value[k]; n = ex.fresh_int(w, "length", st=s2); s2.assume(n.e == LEN(t)); ex.store(s2, func, Ty("ptr"), newtext(ex, s2, LEN(t), CON(t)) if cp else Ptr(c.X, Lin(0), t), av[1]); ex.store(s2, func, Ty("i", w), n, av[2]); out.append((s2, True))
        return out
class Release(Bstr_):
    def setup(self, ex):
        for some in (False, True): st = State(); d = self.entry(ex, st, some); yield Case("a text" if some else "none", st, [Ptr(d["o"])], **d)
    def post(self, ex, c, st, ret):
        g = lambda f: ze(ex.S(st, slot(ex, st, Ptr(c.o), off(ex, self.k + "_" + f)))); v = slot(ex, st, Ptr(c.o), c.vo); return [("no text left", z3.BoolVal(v.r is None)), ("out of the chain", z3.And(g("prev") == -1, g("next") == -1))] + ([("the text is released", z3.BoolVal(bool(st.freed.get(c.b.id))))] if c.b else [])
    def apply(self, ex, func, st, av, rt):
        c = ex.case; k = self.at(ex, av[0])
        for f, x in (("value", 0), ("prev", -1), ("next", -1)): put(st, c.A, c.o[f], z3.Store(ex.arr_of(st, c.A, c.o[f]), k, z3.IntVal(x)))
        return [(st, None)]
# ---- the table
class Table(Contract):
    models = BM; budget = 120
    def base(self, ex, st):
        k = self.k; fs = ("used", "dirty", "cache", "store", "prev", "next", "value", "entry") + (("pin",) if k == "IV" else ()); o = {f: off(ex, f"{k}_{f}") for f in fs}; t = {f: off(ex, f"{k}_{f}") for f in ("array", "head", "tail", "bm", "n", "nchange", "size", "max", "file")}
        n = ex.fresh_int(32, "entries", st=st); st.assume(z3.And(n.e >= 1, n.e < 1 << 31)); X = Region("text", "fam"); A = Region("entries", "arr", stride=o["entry"], nbytes=Lin.of(n.e).scale(o["entry"])); A.pre = True
        for f in FLAGS:
            if f in o: A.slotw[o[f]] = 1
        for f in ("store", "prev", "next"): A.slotw[o[f]] = 4
        A.signed |= {o["prev"], o["next"]}; A.slotw[o["value"]] = 8; A.ptrfam[o["value"]] = X
        T, H, B = Region("array", "obj"), Region("head of the chain", "obj"), Region("block manager", "obj"); T.pre = H.pre = B.pre = True
        T.init.update({t["array"]: Ptr(A), t["head"]: Ptr(H), t["bm"]: Ptr(B), t["file"]: Ptr(Region("key file", "obj")), t["n"]: n})
        for f, w in (("array", 8), ("head", 8), ("bm", 8), ("file", 8), ("n", 4), ("tail", 4), ("size", 4), ("max", 8)): T.slotw[t[f]] = w
        H.slotw[o["next"]] = 4; H.signed.add(o["next"]); T.signed.add(t["tail"]); H.init[o["next"]] = i32(ex, st, "first"); T.init[t["tail"]] = i32(ex, st, "last"); T.init[t["size"]] = u32(ex, st, "cache size"); mx = u64(ex, st, "cache limit"); T.init[t["max"]] = mx; st.assume(mx.e < (W if k == "IV" else W // 2))
        st.mem[G("live")] = fresh("live", BOOLS)
        st.mem[G("m")] = fresh("places")
        for g in ("flen", "fcon", "iv", "pos", "at", "sum"): st.mem[G(g)] = fresh(g, int_arr())
        c = Case("", st, [], A=A, H=H, T=T, X=X, o=o, t=t, n=n.e, k=k, mx=mx.e); ranges(ex, st, c); st.assume(View(ex, st, c).tail >= -1); st.assume(View(ex, st, c).head >= -1); return c
    def done(self, ex, c, st, args, **kw):
        c.args = [Ptr(c.T)] + args; c.__dict__.update(kw); c.v0 = View(ex, st, c); return c
    def key(self): return self.title
    def start(self, ex, x=None, chain=True, key="key", inv=True):
        st = State(); c = self.base(ex, st); k = u32(ex, st, key) if key else None; v = View(ex, st, c)
        if inv:
            for _, f in v.inv(k.e if x else None): st.assume(f)
        if chain:
            for _, f in v.chain() + v.sized(): st.assume(f)
        return st, c, k, v
    def call(self, ex, st, av):
        c = ex.case
        if av[0].r is not c.T: raise Unsupported("another table")
        return c, View(ex, st, c)
    def hold(self, ex, st, fs, what):
        for nm, f in fs: ex.oblige(st, f, f"{what}: {nm}", "pre")
    def assume(self, st, fs):
        for _, f in fs: st.assume(f)
class Unlink(Table):
    def setup(self, ex):
        st, c, k, v = self.start(ex, inv=False); st.assume(z3.And(k.e < c.n, k.e >= 0)); yield self.done(ex, c, st, [k], x=k.e)
    def facts(self, v, v0, x, called=False):
        q0 = v0.q(x); ln = lambda v0, v: None if called else v0.line(cut=v0.gpos[x], when=q0); fix = ("used", "dirty", "pin", "store", "value")
        return v.chain(ln(v0, v)) + [("the size of the rest", (v.gsum[v.gm] if called else v0.line(cut=v0.gpos[x], when=q0)[3](v0.line(cut=v0.gpos[x], when=q0)[2])) == v0.gsum[v0.gm] - z3.If(q0, LEN(v0.value[x]), 0)), ("the size counted stays", v.size == v0.size), ("the entry is not cached any more", z3.If(q0, v.is_("cache", x) == z3.BoolVal(False), v.cache[x] == v0.cache[x])), ("other flags stay", others(v, v0, x, "cache"))] + [(f"{f} stays", getattr(v, f) == getattr(v0, f)) for f in fix if v.pin is not None]
    def post(self, ex, c, st, ret): return self.facts(View(ex, st, c), c.v0, c.x)
    def apply(self, ex, func, st, av, rt):
        c, v = self.call(ex, st, av); x = ze(ex.U(st, av[1])); ex.oblige(st, v.key(x), "a key of the table", "pre"); self.hold(ex, st, v.chain(), "before leaving the chain"); havoc(ex, st, c, ("cache",), chain=True); self.assume(st, self.facts(View(ex, st, c), v, x, True)); return [(st, None)]
class Touch(Table):
    def setup(self, ex):
        st, c, k, v = self.start(ex, inv=False); st.assume(z3.And(k.e < c.n, k.e >= 0, v.is_("cache", k.e))); yield self.done(ex, c, st, [k] + ([False] if self.k == "IV" else []), x=k.e)
    def facts(self, v, v0, x, called=False): return v.chain(None if called else v0.line(cut=v0.gpos[x], end=x, when=z3.Not(v0.is_("pin", x)), size=LEN(v0.value[x]))) + [("the size counted stays", v.size == v0.size), ("the size of all stays", v.gsum[v.gm] == v0.gsum[v0.gm] if called else z3.BoolVal(True))] + [(f"{f} stays", getattr(v, f) == getattr(v0, f)) for f in ("used", "dirty", "cache", "pin", "store", "value")]
    def post(self, ex, c, st, ret): return self.facts(View(ex, st, c), c.v0, c.x)
    def apply(self, ex, func, st, av, rt):
        c, v = self.call(ex, st, av); x = ze(ex.U(st, av[1])); ex.oblige(st, z3.And(v.key(x), v.is_("cache", x)), "a cached key of the table", "pre"); self.hold(ex, st, v.chain(), "before moving to the end"); havoc(ex, st, c, (), chain=True); self.assume(st, self.facts(View(ex, st, c), v, x, True)); return [(st, True)]
def kept(v, v0, x):
    """all keys but x hold what they held; x is as it was; blocks in use stay in use with what they hold"""
    return [("every other key holds what it held", forall([k1], z3.Implies(z3.And(v.key(k1), k1 != x), v.keeps(v0, k1)))), ("values on disk stay", forall([s1], z3.Implies(v0.live[s1], z3.And(v.live[s1], v.flen[s1] == v0.flen[s1], v.fcon[s1] == v0.fcon[s1]))))]
class Swap(Table):
    """the key x being added stands outside"""
    def setup(self, ex):
        st, c, k, v = self.start(ex, x=True); st.assume(z3.And(k.e >= 0, k.e < c.n, z3.Not(v.is_("cache", k.e)))); self.outside(st, v, k.e); c = self.done(ex, c, st, [], x=k.e); yield c
    def outside(self, st, v, x): st.assume(forall([k1], z3.Implies(z3.And(v.key(k1), k1 != x), z3.Or(v.store[k1] == 0, v.store[k1] != v.store[x])))); st.assume(z3.Or(v.store[x] == 0, v.live[v.store[x]]))
    def facts(self, v, v0, x, called=False):
        l = None if called else v0.line(cut=z3.IntVal(0), when=v0.gm > 0); return v.inv(x) + v.chain(l) + v.sized(l) + kept(v, v0, x) + [("the entry being added stays as it is", v.same(v0, x, "used", "dirty", "cache", "pin", "store", "value")), ("its blocks are nobody else's", forall([k1], z3.Implies(z3.And(v.key(k1), k1 != x), z3.Or(v.store[k1] == 0, v.store[k1] != v.store[x])))), ("pins stay", v.pin == v0.pin)]
    def post(self, ex, c, st, ret): v = View(ex, st, c); r = ze(ret) == z3.BoolVal(True); return self.facts(v, c.v0, c.x) + [("room is made exactly if something is cached", r == (c.v0.gm > 0))]
    def apply(self, ex, func, st, av, rt):
        c, v = self.call(ex, st, av); x = c.x; self.hold(ex, st, v.inv(x) + v.chain() + v.sized(), "before making room"); havoc(ex, st, c, ("used", "dirty", "cache", "store", "value"), chain=True, disk=True); w = View(ex, st, c); r = fresh("made room", z3.BoolSort()); self.assume(st, self.facts(w, v, x, True)); st.assume(r == (v.gm > 0)); return [(st, r)]
class Add(Swap):
    def setup(self, ex):
        st, c, k, v = self.start(ex, x=True); n = u64(ex, st, "length") if self.k == "IV" else u32(ex, st, "length"); t = fresh("text given"); st.assume(z3.And(t > 0, LEN(t) == n.e, n.e >= 1)); st.assume(z3.And(k.e >= 0, k.e < c.n, z3.Not(v.is_("cache", k.e)), z3.Not(v.is_("pin", k.e)), v.value[k.e] == 0)); self.outside(st, v, k.e)
        yield self.done(ex, c, st, [k, Ptr(c.X, Lin(0), t), n], x=k.e, text=t, len=n.e)
    def gen(self, ex, c, L):
        vw = lambda v: View(ex, v.st, c)
        for i in range(len(self.facts(c.v0, c.v0, c.x, True))): yield f"room {i}", lambda v, i=i: self.facts(vw(v), c.v0, c.x, True)[i][1]
    def added(self, v, v0, x, t, n, mx, r, called=False):
        yes = r == z3.BoolVal(True); out = [("refused exactly if it is too large", yes == (n <= mx))]
        out += [(nm, z3.Implies(yes, f)) for nm, f in v.inv(x) + v.chain(None if called else v.line(end=x, size=LEN(t))) + v.sized(None if called else v.line(end=x, size=LEN(t))) + kept(v, v0, x) + [("the entry holds the text", z3.And(v.is_("cache", x), v.value[x] == t)), ("its other fields stay", v.same(v0, x, "used", "dirty", "store", "pin")), ("its blocks are nobody else's", forall([k1], z3.Implies(z3.And(v.key(k1), k1 != x), z3.Or(v.store[k1] == 0, v.store[k1] != v.store[x])))), ("pins stay", v.pin == v0.pin)]]
        return out + [("refused: nothing changes", z3.Implies(z3.Not(yes), z3.And([getattr(v, f) == getattr(v0, f) for f in ENTRY + DISK + ("gpos", "gat", "gm", "gsum", "size")] + [v.head == v0.head, v.tail == v0.tail])))]
    def post(self, ex, c, st, ret): return self.added(View(ex, st, c), c.v0, c.x, c.text, c.len, c.mx, ze(ret))
    def apply(self, ex, func, st, av, rt):
        c, v = self.call(ex, st, av); x, t, n = ze(ex.U(st, av[1])), tkey(c, av[2]), ze(ex.U(st, av[3])); ex.oblige(st, v.key(x), "a key of the table", "pre"); ex.oblige(st, z3.And(z3.Not(v.is_("cache", x)), z3.Not(v.is_("pin", x)), v.value[x] == 0), "the entry is not cached", "pre"); ex.oblige(st, z3.And(n == LEN(t), n >= 1), "the length is the text's", "pre")
        self.hold(ex, st, v.inv(x) + v.chain() + v.sized(), "before adding"); ex.oblige(st, z3.And(z3.Or(v.store[x] == 0, v.live[v.store[x]]), forall([k1], z3.Implies(z3.And(v.key(k1), k1 != x), z3.Or(v.store[k1] == 0, v.store[k1] != v.store[x])))), "the entry's blocks are its own", "pre")
        havoc(ex, st, c, ("used", "dirty", "cache", "store", "value"), chain=True, disk=True); w = View(ex, st, c); r = fresh("added", z3.BoolSort()); self.assume(st, self.added(w, v, x, t, n, c.mx, r, True)); return [(st, r)]
# ---- the operations
class Op(Table):
    def result(self, ex, c, st, x=None):
        v = View(ex, st, c); j = fresh("j"); return v, v.inv() + v.chain() + v.sized() + [("every other key holds what it held", z3.Implies(z3.And(v.key(j), j != x if x is not None else True), v.keeps(c.v0, j)))]
class Search(Op):
    def setup(self, ex):
        st, c, k, v = self.start(ex); ps, pl = Region("where the text goes", "obj"), Region("where the length goes", "obj"); yield self.done(ex, c, st, [k, Ptr(ps), Ptr(pl)], x=k.e, ps=ps, pl=pl)
    def post(self, ex, c, st, ret):
        v, out = self.result(ex, c, st); r = ze(ret) == z3.BoolVal(True); x = c.x; s, l = slot(ex, st, Ptr(c.ps), 0), slot(ex, st, Ptr(c.pl), 0); out = [("found exactly if the key is present", r == z3.And(x < c.n, c.v0.has(x)))] + out
        if s is None or l is None: return out + [("the text is given", z3.BoolVal(False))]
        if s.r is None: return out + [("no text without a value", z3.Not(r))]
        t = tkey(c, s); j = fresh("j"); return out + [("the text is the one last stored", z3.Implies(r, z3.And(CON(t) == c.v0.con(x), ze(ex.U(st, l)) == c.v0.len(x), LEN(t) == c.v0.len(x)))), ("a copy of its own", z3.Implies(v.key(j), v.value[j] != t))]
class Remove(Op):
    def setup(self, ex): st, c, k, v = self.start(ex); yield self.done(ex, c, st, [k], x=k.e)
    def post(self, ex, c, st, ret):
        v, out = self.result(ex, c, st, c.x); here = z3.And(c.x < c.n, c.v0.has(c.x)); return [("it succeeds exactly if the key is present", (ze(ret) == z3.BoolVal(True)) == here), ("the key is not present any more", z3.Implies(v.key(c.x), z3.Not(v.has(c.x))))] + out
class Store_(Op):
    only = False
    def setup(self, ex):
        for lab in ("a key within the table", "a key beyond it"):
            if lab != "a key within the table" and not self.only: lab = "a key too large"
            st, c, k, v = self.start(ex); n = u64(ex, st, "length", 1 << 40) if self.k == "IV" else u32(ex, st, "length"); t = fresh("text given"); st.assume(z3.And(t > 0, LEN(t) == n.e, n.e >= 1, n.e < W)); st.assume(forall([k1], v.value[k1] != t)); st.assume(k.e < c.n if "within" in lab else k.e >= c.n if self.only else k.e >= 1 << 31); yield self.done(ex, c, st, [k, Ptr(c.X, Lin(0), t), n], x=k.e, text=t, len=n.e)
            c.label = lab
    def post(self, ex, c, st, ret):
        v, out = self.result(ex, c, st, c.x); r = ze(ret) == z3.BoolVal(True); here = z3.And(c.x < c.n, c.v0.has(c.x)); ok = here if self.only else z3.And(c.x < c.n, z3.Not(here))
        return [("it succeeds exactly if the key is " + ("present" if self.only else "not present"), r == ok), ("afterwards the key holds the text given", z3.Implies(ok, z3.And(v.has(c.x), v.con(c.x) == CON(c.text), v.len(c.x) == c.len))), ("refused: the key keeps what it held", z3.Implies(z3.And(z3.Not(ok), v.key(c.x)), v.keeps(c.v0, c.x)))] + out
class Modify(Store_): only = True
class Pin(Op):
    def setup(self, ex): st, c, k, v = self.start(ex); yield self.done(ex, c, st, [k], x=k.e)
    def post(self, ex, c, st, ret): v, out = self.result(ex, c, st); return out + [("a key that is present is cached and pinned", z3.Implies(z3.And(v.key(c.x), c.v0.has(c.x)), z3.And(v.is_("cache", c.x), v.is_("pin", c.x))))]
class Save(Op):
    def setup(self, ex):
        st, c, k, v = self.start(ex, key=None); b = fresh("the table has grown", z3.BoolSort()); c.T.init[c.t["nchange"]] = b; c.T.slotw[c.t["nchange"]] = 1; yield self.done(ex, c, st, [], x=None, grown=b)
    def gen(self, ex, c, L):
        vw = lambda v: View(ex, v.st, c)
        yield "within the table", lambda v: v["it"] <= c.n
        for i in range(len(c.v0.inv() + c.v0.chain() + c.v0.sized())): yield f"saved {i}", lambda v, i=i: (vw(v).inv() + vw(v).chain() + vw(v).sized())[i][1]
        yield "every key holds what it held", lambda v: forall([k1], z3.Implies(vw(v).key(k1), vw(v).keeps(c.v0, k1)))
        yield "saved so far", lambda v: forall([k1], z3.Implies(z3.And(0 <= k1, k1 < v["it"]), z3.Not(vw(v).is_("dirty", k1))))
        yield "the number of entries", lambda v: v.st.mem[G("iv")][-1] == z3.If(c.grown, c.n, c.v0.iv[-1])
        for f in ("cache", "pin", "used", "value"): yield f"{f} stays", lambda v, f=f: getattr(vw(v), f) == getattr(c.v0, f)
    def post(self, ex, c, st, ret):
        v, out = self.result(ex, c, st); j = fresh("j"); return out + [("the key file tells where every value is", z3.Implies(v.key(j), z3.And(v.iv[j] == v.store[j], v.has(j) == (v.iv[j] > 0)))), ("what is read from there is what the key holds", z3.Implies(z3.And(v.key(j), v.has(j)), z3.And(v.live[v.iv[j]], v.fcon[v.iv[j]] == c.v0.con(j), v.flen[v.iv[j]] == c.v0.len(j)))), ("the number of entries is saved", z3.Implies(c.grown, v.iv[-1] == c.n))]
def mk(cls, k, fn, uses=()): return type(cls.__name__, (cls,), {"name": fn, "title": fn.split("(")[0], "k": k, "uses": tuple(uses)})()
FUNCS = []
for k, L in (("IV", "unsigned long"), ("IS", "unsigned int")):
    E, A = k + "Entry::", k + "Array::"
    sb, gb, rl = mk(SetB, k, E + ("setBstr(char*, unsigned long)" if k == "IV" else "setBstr(char const*, unsigned int)")), mk(GetB, k, E + f"getBstr(char*&, {L}&, bool) const"), mk(Release, k, E + "release()"); base = (sb, gb, rl)
    un, to, sw = mk(Unlink, k, A + "RemoveFromLRUQueue(unsigned int)", base), mk(Touch, k, A + ("UpdateTime(unsigned int, bool)" if k == "IV" else "UpdateTime(unsigned int)"), base), mk(Swap, k, A + "SwapOut()", base)
    ad = mk(Add, k, A + f"AddInCache(unsigned int, char*, {L})", base + (sw,)); use = base + (un, to, ad)
    FUNCS += [sb, gb, rl, un, to, sw, ad, mk(Search, k, A + f"search(unsigned int, char*&, {L}&)", use), mk(Store_, k, A + f"insert(unsigned int, char*, {L})", use), mk(Modify, k, A + f"modify(unsigned int, char*, {L})", use), mk(Remove, k, A + "remove(unsigned int)", use), mk(Save, k, A + "save()", use)]
    if k == "IV": FUNCS.append(mk(Pin, k, A + "PinCache(unsigned int)", use))
HARNESS = {"src": "C13.cpp", "tus": ["KVstore/IVArray/IVEntry.cpp", "KVstore/IVArray/IVArray.cpp", "KVstore/IVArray/IVBlockManager.cpp", "KVstore/ISArray/ISEntry.cpp", "KVstore/ISArray/ISArray.cpp", "KVstore/ISArray/ISBlockManager.cpp", "Util/Version.cpp", "Util/GraphLock.cpp", "Util/Latch.cpp", "Util/Transaction.cpp", "Util/Bstr.cpp", "Util/Util.cpp", "Util/VList.cpp"], "secs": 20}
ASSUMPTIONS = ["the block managers: WriteValue gives a first block not in use and keeps text and length, ReadValue returns them, FreeBlocks takes the first block of a stored value or 0 (proved under C03; that only such blocks are passed is proved here); writing does not fail",
               "memcpy of a whole text copies its content; texts are identities with a length and a content (setBstr, getBstr and release are proved with real blocks of bytes)", "values of at least one byte (a value of none has no block: gStore stores none)", "fewer than 2^31 entries; a cache limit below 2^32 bytes (ISArray: 2^31)",
               "pwrite writes all it is asked to; operations on one table come one after another (its locks: modelled as no effect)", "the chain of cached entries and the entries are in order when an operation begins, which each is proved to leave; the constructors' empty table is"]
BOUNDED = ["growth of the key table (insert of a key beyond it: IVEntry::Copy, ISEntry::Copy, the new table), opening a saved table (constructor): harness only (histories of up to 60 operations over up to 10 keys, tables of up to 16384 entries, caches of 1 to 60000 bytes, values of up to the cache's size and beyond and over 1000000 bytes)", "CleanDirtyKey (merging the versions of transactions): under C04"]
