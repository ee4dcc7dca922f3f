"""Semantics of library functions the verified code calls (the trusted part of the memory/STL model)."""
import re, z3
from smt import *
from vals import *
from ir import Unsupported, Ty
from symex import PathEnd

MODELS = []
def model(rx):
    def d(f):
        MODELS.append((re.compile(rx), f)); return f
    return d

def unit(ex, func, st, dn, av, rt): return [(st, None)]
def first(ex, func, st, dn, av, rt): return [(st, av[0])]

def ret_any(ex, st, rt, nm="ret"):
    if rt.k == "void": return None
    if rt.k == "i": return fresh(nm, z3.BoolSort()) if rt.a == 1 else ex.fresh_int(rt.a, nm, st=st)
    raise Unsupported("arbitrary result of type " + repr(rt))

# ---- output: no effect on the verified state
@model(r"^std::(basic_)?ostream.*operator<<|^std::ostream::(operator<<|put|write|flush)|^std::(__1::)?operator<<|^std::basic_ostream<.*>& std::(operator<<|endl|flush)|^std::ostream& std::(operator<<|endl|flush)")
def m_ostream(ex, func, st, dn, av, rt): return [(st, av[0])]

@model(r"^(printf|puts|putchar|fprintf|fflush|perror|vfprintf|fputs|fputc)$")
def m_printf(ex, func, st, dn, av, rt): return [(st, ret_any(ex, st, rt))]

# ---- allocation
@model(r"^operator new\[\]\(unsigned long\)$|^operator new\(unsigned long\)$|^malloc$|^operator new(\[\])?\(unsigned long, std::nothrow_t const&\)$")
def m_new(ex, func, st, dn, av, rt):
    n = ex.U(st, av[0]) if not ex.bv else z3.simplify(av[0].e).as_long()
    lin = av[0].lin if getattr(av[0], "lin", None) is not None and n is av[0].e else linz(n)
    ex.nalloc = getattr(ex, "nalloc", 0) + 1
    kind = "arr"
    r = Region(f"new#{ex.line}", kind, nbytes=lin, heap="new[]" if "[]" in dn else "malloc" if dn == "malloc" else "new")
    r.embedded = []
    if r.heap == "new" and isc(n): r.kind = "obj"
    return [(st, Ptr(r))]

def linz(e):
    """Lin of an integer expression, decomposing sums and constant multiples"""
    e = fold(e)
    if isc(e): return Lin(e)
    s = z3.simplify(e, som=True)
    if z3.is_int_value(s): return Lin(s.as_long())
    l = Lin(0)
    for x in (s.children() if z3.is_add(s) else [s]):
        if z3.is_int_value(x): l = l.add(Lin(x.as_long()))
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)): l = l.add(Lin.of(x.arg(1)).scale(x.arg(0).as_long()))
        else: l = l.add(Lin.of(x))
    return l

@model(r"^realloc$")
def m_realloc(ex, func, st, dn, av, rt):
    """a fresh block with the old contents; like new, it does not fail"""
    p = av[0]; n = ex.U(st, av[1]); lin = av[1].lin if getattr(av[1], "lin", None) is not None and n is av[1].e else linz(n)
    if p.r is None: return m_new(ex, func, st, "malloc", [av[1]], rt)
    if p.r.kind != "arr" or not (p.off.isconst() and p.off.c == 0): raise Unsupported("realloc of " + p.r.name)
    if st.freed.get(p.r.id): ex.oblige(st, False, f"realloc of freed {p.r.name}", "safety"); raise PathEnd()
    if lin.t == {} and lin.c == 0: raise Unsupported("realloc to nothing")
    r = Region(f"realloc#{ex.line}", "arr", stride=p.r.stride, nbytes=lin, heap="malloc"); r.embedded = []
    r.slotw.update(p.r.slotw); r.ptrfam.update(p.r.ptrfam); r.signed |= p.r.signed
    for o in list(p.r.slotw): st.mem[(r.id, o)] = ex.arr_of(st, p.r, o)
    st.freed[p.r.id] = True
    return [(st, Ptr(r))]

@model(r"^operator delete(\[\])?\(void\*(, unsigned long)?\)$|^free$")
def m_delete(ex, func, st, dn, av, rt):
    p = av[0]
    if p.r is None: return [(st, None)]
    if p.r.kind == "fam":
        return [(st, None)] if not hasattr(ex, "on_fam_delete") else ex.on_fam_delete(st, p)
    if st.freed.get(p.r.id): ex.oblige(st, False, f"double free of {p.r.name}", "safety"); raise PathEnd()
    st.freed[p.r.id] = True
    return [(st, None)]

@model(r"^llvm\.umul\.with\.overflow\.i64|^llvm\.uadd\.with\.overflow\.i64")
def m_umulo(ex, func, st, dn, av, rt):
    a, b = av
    f = mul if "umul" in dn else add
    x, y = ex.U(st, a), ex.U(st, b)
    p = f(x, y)
    lin = None
    if "umul" in dn and isc(y): lin = linz(x).scale(y)
    if "umul" in dn and isc(x): lin = linz(y).scale(x)
    if isc(p): return [(st, AV([ex.const(64, p), p >= (1 << 64)]))]
    ov = p >= (1 << 64)
    if ex.proves(st, z3.Not(ov)): return [(st, AV([IV(64, p, 0, (1 << 64) - 1, lin), False]))]
    return [(st, AV([ex.mk(64, p, 0, 1 << 128, lin), ov]))]

@model(r"^(std::__throw_|__cxa_throw|std::terminate|abort$|__assert_fail|exit$|_exit$|__clang_call_terminate|__cxa_bad)")
def m_noreturn(ex, func, st, dn, av, rt):
    if ex.opt.get("throws_ok"): raise PathEnd()
    ex.oblige(st, False, "reaches " + dn.split("(")[0], "safety"); raise PathEnd()

@model(r"^__cxa_|^llvm\.eh|^_Unwind|^__gxx")
def m_cxa(ex, func, st, dn, av, rt): raise PathEnd()

@model(r"^std::ios_base::Init|^std::locale")
def m_ios(ex, func, st, dn, av, rt): return [(st, None)]

# ---- locks: mutual exclusion is the caller's protocol; a sequential model has no effect
@model(r"^pthread_(mutex|spin|rwlock)_|^std::mutex::(lock|unlock|try_lock)|^std::(lock_guard|unique_lock)<|^SpinLatch::|^Latch::")
def m_lock(ex, func, st, dn, av, rt):
    if rt.k == "void": return [(st, None)]
    if rt.k == "i" and rt.a == 1: return [(st, True)]
    if rt.k == "i": return [(st, ex.const(rt.a, 0))]
    return NotImplemented

# ---- libm: no effect on memory; results are arbitrary (any value the code could get is covered)
@model(r"^(log|log2|log1p|log10|exp|pow|sqrt|floor|ceil|fabs|round)f?$|^std::(log|pow|sqrt|floor|ceil|fabs|exp).*")
def m_math(ex, func, st, dn, av, rt):
    from symex import FPS
    if rt.k not in FPS: return NotImplemented
    return [(st, FV(rt.k, fresh("libm", FPS[rt.k])))]

# ---- error messages: std::string values that are only printed (opt-in per contract; reading such a string back is unsupported)
STRS = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>"
def m_opaque(ex, func, st, dn, av, rt):
    if rt.k == "ptr": return [(st, av[0])]
    if rt.k == "void": return [(st, None)]
    return NotImplemented
MESSAGES = [(re.compile(r"^" + STRS + r"::(basic_string|~basic_string|operator=|operator\+=|append)\(|^" + STRS + r" std::operator\+ ?<|^std::operator\+ ?<|^" + STRS + r" std::(to_string|__cxx11::to_string)\(|^std::__cxx11::to_string\(|^Util::(int2string|showtime)|^std::(allocator|__new_allocator)<char>::~?(allocator|__new_allocator)\("), m_opaque)]

# ---- whole-object copies, field by field (the fields are those of the object's type)
def tleaves(r):
    l = getattr(r, "_tleaves", None)
    if l is None and r.ty is not None and r.mod is not None:
        l = []
        def go(t, o):
            t = r.mod.resolve(t)
            if t.k == "struct":
                for e, x in zip(t.a, r.mod.layout(t)[2]): go(e, o + x)
            elif t.k == "arr" and t.b.k != "i":
                for i in range(t.a): go(t.b, o + i * r.mod.size(t.b))
            elif t.k != "arr": l.append((o, t))
            elif not (t.b.k == "i" and t.b.a == 8): raise Unsupported("copy of an array field")      # byte arrays here are padding
        go(r.ty, 0); r._tleaves = l
    return l
def fields_of(p, n):
    """[(offset from p, type)] of the n bytes at p, or None"""
    r = p.r
    if r.kind == "obj" and p.off.isconst():
        l = tleaves(r)
        if l is None: return None
        return [(o - p.off.c, t) for o, t in l if p.off.c <= o < p.off.c + n]
    lv = getattr(r, "tl", None)
    return lv if lv is not None and r.stride == n else None
@model(r"^llvm\.memset\.p0\.i64")
def m_memset(ex, func, st, dn, av, rt):
    p, v, n = av[0], ex.U(st, av[1]), ex.U(st, av[2])
    if not (isc(v) and v == 0 and isc(n)): raise Unsupported("memset")
    f = fields_of(p, n)
    if f is None: raise Unsupported("memset of " + p.r.name)
    for o, t in f: ex.store(st, func, t, ex.zero_of(t), Ptr(p.r, p.off.add(Lin(o)), p.key))
    return [(st, None)]
def copy_run(ex, func, st, d, s, nv, n):
    """memcpy of a variable number of whole elements between arrays of integers"""
    if s.r is None or d.r is None: raise Unsupported("memcpy of a variable number of bytes at null")
    if s.r.kind != "arr" or d.r.kind != "arr" or s.r is d.r: raise Unsupported("memcpy of a variable number of bytes")
    w = s.r.stride
    if d.r.stride is None: d.r.stride = w
    if w is None or d.r.stride != w or s.r.ptrfam or set(s.r.slotw) - {0}: raise Unsupported("memcpy between different arrays")
    nl = (nv.lin if getattr(nv, "lin", None) is not None and n is nv.e else linz(n)).divmod(w)
    a, b = d.off.divmod(w), s.off.divmod(w)
    if nl is None or a is None or b is None or nl[1] or a[1] or b[1]: raise Unsupported("memcpy of parts of elements")
    k, di, si = ze(nl[0]), ze(a[0]), ze(b[0])
    for p, i in ((d, di), (s, si)):
        if st.freed.get(p.r.id): ex.oblige(st, False, f"use of freed {p.r.name}", "safety"); raise PathEnd()
        nb = p.r.nbytes
        if nb is None: raise Unsupported("memcpy into a block of unknown size")
        m = nb.divmod(w); ex.oblige(st, z3.And(i >= 0, i + k <= ze(m[0])), f"memcpy stays inside {p.r.name}", "safety")
    S, D = ex.arr_of(st, s.r, 0), ex.arr_of(st, d.r, 0); N = fresh(d.r.name + "@copy", D.sort()); x = z3.Int("mq!")
    st.assume(z3.ForAll([x], z3.Implies(z3.And(di <= x, x < di + k), N[x] == S[x - di + si]))); st.assume(z3.ForAll([x], z3.Implies(z3.Or(x < di, x >= di + k), N[x] == D[x])))
    if d.r.slotw.get(0) is None: d.r.slotw[0] = w
    st.mem[(d.r.id, 0)] = N; st.writes.append((d.r, 0, None, N)); return [(st, None)]
@model(r"^llvm\.mem(cpy|move)\.p0\.p0\.i64")
def m_memcpy(ex, func, st, dn, av, rt):
    d, s, n = av[0], av[1], ex.U(st, av[2])
    if not isc(n): return copy_run(ex, func, st, d, s, av[2], n)
    f = fields_of(d, n) or fields_of(s, n)
    if not f: raise Unsupported(f"memcpy from {s.r.name} to {d.r.name}")
    vs = [(o, t, ex.load(st, func, t, Ptr(s.r, s.off.add(Lin(o)), s.key))) for o, t in f]
    for o, t, v in vs: ex.store(st, func, t, v, Ptr(d.r, d.off.add(Lin(o)), d.key))
    return [(st, None)]
