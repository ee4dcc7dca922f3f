"""Models of std::vector members that allocate; accessors (size, operator[], begin, ...) run from their own IR.
A vector is its three pointers; its element region never moves, so pointers into it stay valid (assumption
'vector-storage-stable', checked by the AddressSanitizer build of the replay harness)."""
import re, z3
import models
from models import model, linz
from smt import *
from vals import *
from ir import Unsupported, Ty
from symex import POISON

def g(st, p, off):
    o = p.off.c + off
    v = st.mem.get((p.r.id, o))
    if v is None: v = p.r.init.get(o)
    if v is POISON: raise Unsupported("vector state differs between iterations")
    return v
def s(st, p, off, v):
    o = p.off.c + off
    st.mem[(p.r.id, o)] = v; p.r.slotw[o] = 8
    st.writes.append((p.r, o, None, v))
def vptr(ex, st, p):
    if not isinstance(p, Ptr) or p.r is None or p.r.kind != "obj" or not p.off.isconst(): raise Unsupported("vector object reached through " + repr(p))
    return p
def mkdata(ex, p, width, zero=False):
    r = Region(f"vec@{p.r.name}+{p.off.c}", "arr", stride=width, nbytes=None); r.isvec = True; r.zero = zero
    return r

VEC = r"std::vector<(?P<t>[^()]*)>::"
WID = {"unsigned int": 4, "int": 4, "unsigned long": 8, "long": 8, "char": 1, "unsigned char": 1, "double": 8, "unsigned long long": 8, "bool": None}
EL = r"^std::vector<((?:[^<>,]|<(?:[^<>]|<[^<>]*>)*>)*?),"      # the element type: up to two levels of template arguments
def width(ex, dn):
    m = re.match(EL, dn)
    if not m: raise Unsupported("vector element type of " + dn)
    t = m.group(1).strip()
    if t in WID and WID[t]: return WID[t]
    if t.endswith("*"): return 8
    w = ex.opt.get("elem", {}).get(t)
    if w is None: raise Unsupported("vector of " + t)
    return w

@model(r"^std::vector<.*>::vector\(\)$|^std::vector<.*>::vector\(std::allocator<.*> const&\)$|^std::_Vector_base<.*>::_Vector_base\(\)$")
def v_ctor(ex, func, st, dn, av, rt):
    if dn.startswith("std::_Vector_base"): return NotImplemented
    p = vptr(ex, st, av[0]); w = width(ex, dn)
    r = mkdata(ex, p, w); 
    for k in (0, 8, 16): s(st, p, k, Ptr(r))
    r.vecobj = (p.r, p.off.c)
    return [(st, None)]

@model(r"^std::vector<.*>::~vector\(\)$")
def v_dtor(ex, func, st, dn, av, rt): return [(st, None)]

def elem_leaves(ex, dn):
    m = re.match(EL, dn)
    return ex.opt.get("elem_leaves", {}).get(m.group(1).strip()) if m else None

@model(r"^std::vector<.*>::(push_back|emplace_back<.*>)\(.*\)$|^void std::vector<.*>::emplace_back<.*>\(.*\)$")
def v_push(ex, func, st, dn, av, rt):
    dn2 = re.sub(r"^void ", "", dn)
    p = vptr(ex, st, av[0]); w = width(ex, dn2)
    b, e = g(st, p, 0), g(st, p, 8)
    if b is None or b.r is None: raise Unsupported("push_back on an unknown vector")
    src = av[1]
    lv = elem_leaves(ex, dn2)
    sv = ex.safety; 
    if lv is None:
        ty = Ty("i", 8 * w)
        if src.r is not None and src.r.kind == "obj" and isinstance(g(st, Ptr(src.r, src.off), 0), Ptr): ty = Ty("ptr")
        v = ex.load(st, func, ty, src)
        ex.safety = False
        ex.store(st, func, ty, v, e)
    else:
        vals = [(o, ty, ex.load(st, func, ty, Ptr(src.r, src.off.add(Lin(o)), src.key))) for o, ty in lv]
        ex.safety = False
        for o, ty, v in vals: ex.store(st, func, ty, v, Ptr(e.r, e.off.add(Lin(o))))
    ex.safety = sv
    s(st, p, 8, Ptr(e.r, e.off.add(Lin(w))))
    return [(st, None)]

@model(r"^std::vector<.*>::clear\(\)$")
def v_clear(ex, func, st, dn, av, rt):
    p = vptr(ex, st, av[0]); s(st, p, 8, g(st, p, 0)); return [(st, None)]

@model(r"^std::vector<.*>::reserve\(unsigned long\)$")
def v_reserve(ex, func, st, dn, av, rt): return [(st, None)]

@model(r"^std::vector<.*>::pop_back\(\)$")
def v_pop(ex, func, st, dn, av, rt):
    p = vptr(ex, st, av[0]); w = width(ex, dn); b, e = g(st, p, 0), g(st, p, 8)
    q = e.off.sub(b.off).divmod(w)[0]
    ex.oblige(st, gt(q, 0), "pop_back on a non-empty vector", "safety")
    s(st, p, 8, Ptr(e.r, e.off.add(Lin(-w)))); return [(st, None)]

@model(r"^std::vector<.*>::operator=\(std::vector<.*> const&\)$|^std::vector<.*>::vector\(std::vector<.*> const&\)$|^std::vector<.*>::(operator=|vector)\(std::vector<.*>&&\)$")
def v_assign(ex, func, st, dn, av, rt):
    p = vptr(ex, st, av[0]); q = vptr(ex, st, av[1]); w = width(ex, dn)
    b, e = g(st, q, 0), g(st, q, 8)
    if b is None or b.r is None: raise Unsupported("copy of an unknown vector")
    cb = g(st, p, 0)
    if "::operator=(" in dn and cb is not None and cb.r is not None and cb.off.isconst() and cb.off.c == 0 and b.off.isconst() and b.off.c == 0:
        r = cb.r
    else: r = mkdata(ex, p, w); r.vecobj = (p.r, p.off.c)
    n = e.off.sub(b.off)
    if not (b.off.isconst() and b.off.c == 0): raise Unsupported("copy of a shifted vector")
    for o in list(b.r.slotw):
        a = ex.arr_of(st, b.r, o); st.mem[(r.id, o)] = a; r.slotw[o] = b.r.slotw[o]; st.writes.append((r, o, None, a))
        if o in b.r.ptrfam: r.ptrfam[o] = b.r.ptrfam[o]
    r.signed |= b.r.signed
    s(st, p, 0, Ptr(r)); s(st, p, 8, Ptr(r, n)); s(st, p, 16, Ptr(r, n))
    if "&&" in dn and q is not p:
        for k in (8,): s(st, q, k, g(st, q, 0))
    return [(st, av[0] if "::operator=(" in dn else None)]

@model(r"^std::vector<.*>::resize\(unsigned long\)$")
def v_resize(ex, func, st, dn, av, rt):
    p = vptr(ex, st, av[0]); w = width(ex, dn); b, e = g(st, p, 0), g(st, p, 8)
    n = ex.U(st, av[1]); old = e.off.sub(b.off).divmod(w)[0]
    res = []
    for s2, grow in ex.branch(st, gt(n, old)):
        if grow:
            for o in list(b.r.slotw) or [0]:
                if not b.r.slotw: b.r.slotw[0] = w
                a = ex.arr_of(s2, b.r, o); na = fresh("resized", a.sort()); 
                s2.assume(z3.ForAll([z3.Int("k!r")], z3.Implies(z3.And(z3.Int("k!r") < ze(n), z3.Int("k!r") >= 0), na[z3.Int("k!r")] == z3.If(z3.Int("k!r") < ze(old), a[z3.Int("k!r")], 0))))
                s2.mem[(b.r.id, o)] = na; s2.writes.append((b.r, o, None, na))
        s(s2, p, 8, Ptr(b.r, b.off.add(linz(n).scale(w))))
        res.append((s2, None))
    return res

@model(r"^std::vector<.*>::erase\(.*, .*\)$")
def v_erase_range(ex, func, st, dn, av, rt):
    # only erase(first, end()) : truncation
    p = vptr(ex, st, av[0])
    f, l = av[1], av[2]
    if not isinstance(f, Ptr): raise Unsupported("erase iterator")
    e = g(st, p, 8)
    d = l.off.sub(e.off)
    if not (d.isconst() and d.c == 0): raise Unsupported("erase of an inner range")
    s(st, p, 8, Ptr(f.r, f.off)); return [(st, f)]


# ---- algorithms over contiguous integer ranges (library contracts)
@model(r"^.* std::(lower_bound|upper_bound)<(unsigned int|int|unsigned long) ?(const)?\*, (unsigned int|int|unsigned long)>\(.*\)$")
def v_bound(ex, func, st, dn, av, rt):
    up = "std::upper_bound<" in dn
    f, l = av[0], av[1]
    if f.r is not l.r: raise Unsupported("bound on unrelated pointers")
    w = f.r.stride or 4
    v = ex.load(st, func, Ty("i", 8 * w), av[2]); key = ex.U(st, v)
    q0 = f.off.divmod(w); d = l.off.sub(f.off).divmod(w)
    n = d[0]
    a = ex.arr_of(st, f.r, q0[1]); b0 = ze(q0[0])
    x, y = z3.Ints("lb!x lb!y")
    ex.oblige(st, z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < ze(n)), a[b0 + x] <= a[b0 + y])), "range passed to lower/upper_bound is sorted", "pre")
    k = fresh("bound"); st.assume(z3.And(k >= 0, k <= ze(n)))
    lowf = (lambda e: e <= ze(key)) if up else (lambda e: e < ze(key))
    if isinstance(b0, z3.IntNumRef) and b0.as_long() == 0: b0x = lambda x: x
    else: b0x = lambda x: b0 + x
    st.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < k), lowf(a[b0x(x)]))))
    st.assume(z3.ForAll([x], z3.Implies(z3.And(k <= x, x < ze(n)), z3.Not(lowf(a[b0x(x)])))))
    # ground instances, so that provers need not guess them
    st.assume(z3.Implies(k > 0, lowf(a[b0x(k - 1)]))); st.assume(z3.Implies(k < ze(n), z3.Not(lowf(a[b0x(k)]))))
    return [(st, Ptr(f.r, f.off.add(Lin.of(k).scale(w))))]
