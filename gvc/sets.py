"""std::set of id pairs, as a mathematical set: a ghost array over the encoded pair first*2^32+second (the ordering is std::pair's own)."""
import re, z3
from models import model
from smt import *
from vals import *
from ir import Unsupported, Ty

W = 1 << 32
PS = r"std::set<std::pair<unsigned int, unsigned int>, std::less<std::pair<unsigned int, unsigned int> ?>, std::allocator<std::pair<unsigned int, unsigned int> ?> ?>"
PT = PS + "::"
def setsort(): return z3.ArraySort(z3.IntSort(), z3.BoolSort())
def skey(p):
    if not isinstance(p, Ptr) or p.r is None or p.r.kind != "obj" or not p.off.isconst(): raise Unsupported("set object reached through " + repr(p))
    return (p.r.id, ("set", p.off.c))
def get(st, p):
    k = skey(p)
    if k in st.mem: return st.mem[k]
    raise Unsupported("set of unknown contents")
def put(st, p, a):
    k = skey(p); st.mem[k] = a; st.writes.append((p.r, k[1], None, a))
def new_set(st, nm, empty=False):
    """a set object with arbitrary contents -> (pointer, initial contents)"""
    o = Region(nm, "obj"); o.pre = True; p = Ptr(o)
    a = z3.K(z3.IntSort(), z3.BoolVal(False)) if empty else fresh(nm, setsort())
    st.mem[skey(p)] = a
    return p, a
def pair_of(ex, func, st, p):
    a = ex.U(st, ex.load(st, func, Ty("i", 32), p)); b = ex.U(st, ex.load(st, func, Ty("i", 32), Ptr(p.r, p.off.add(Lin(4)), p.key)))
    return ze(add(mul(a, W), b))

@model("^" + PT + r"set\(\)$")
def s_ctor(ex, func, st, dn, av, rt): put(st, av[0], z3.K(z3.IntSort(), z3.BoolVal(False))); return [(st, None)]
@model("^" + PT + r"~set\(\)$")
def s_dtor(ex, func, st, dn, av, rt): return [(st, None)]
@model("^" + PT + r"clear\(\)$")
def s_clear(ex, func, st, dn, av, rt): put(st, av[0], z3.K(z3.IntSort(), z3.BoolVal(False))); return [(st, None)]
@model("^" + PT + r"insert\(std::pair<unsigned int, unsigned int>( const)?&&?\)$")
def s_insert(ex, func, st, dn, av, rt):
    q = pair_of(ex, func, st, av[1]); a = get(st, av[0]); was = a[q]
    put(st, av[0], z3.Store(a, q, z3.BoolVal(True)))
    return [(st, AV([Ptr(Region("setit", "obj")), z3.Not(was)]))]
@model("^" + PT + r"erase\(std::pair<unsigned int, unsigned int> const&\)$")
def s_erase(ex, func, st, dn, av, rt):
    q = pair_of(ex, func, st, av[1]); a = get(st, av[0])
    put(st, av[0], z3.Store(a, q, z3.BoolVal(False)))
    return [(st, IV(64, z3.If(a[q], z3.IntVal(1), z3.IntVal(0)), 0, 1))]
@model("^" + PT + r"count\(std::pair<unsigned int, unsigned int> const&\) const$")
def s_count(ex, func, st, dn, av, rt):
    q = pair_of(ex, func, st, av[1]); return [(st, IV(64, z3.If(get(st, av[0])[q], z3.IntVal(1), z3.IntVal(0)), 0, 1, None, get(st, av[0])[q]))]
# iterators: find() gives either the end (key 0 of the iterator family) or the element it looked for
ITER = {}
def end_region(st, p):
    k = skey(p)
    if k not in ITER: ITER[k] = Region("setend", "obj")
    return ITER[k]
# iteration: begin() fixes an enumeration of the set's contents (each element once); end() is one past its last element
@model("^" + PT + r"begin\(\) const$")
def s_begin(ex, func, st, dn, av, rt):
    a = get(st, av[0]); r = Region("setseq", "arr", stride=8); r.slotw[0] = r.slotw[4] = 4; n = fresh("setsize"); st.assume(n >= 0)
    f, g = ex.arr_of(st, r, 0), ex.arr_of(st, r, 4); i, j, q = z3.Ints("se!i se!j se!q")
    el = lambda k: f[k] * W + g[k]
    pos = z3.Function(f"setpos!{r.id}", z3.IntSort(), z3.IntSort())
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(a[el(i)], f[i] >= 0, f[i] < W, g[i] >= 0, g[i] < W))))
    st.assume(z3.ForAll([q], z3.Implies(a[q], z3.And(pos(q) >= 0, pos(q) < n, el(pos(q)) == q))))
    r.nbytes = Lin.of(n).scale(8); r.setseq = (skey(av[0]), n, el); r.pre = True
    st.notes[("seq", skey(av[0]))] = r
    return [(st, Ptr(r))]
@model("^" + PT + r"end\(\) const$")
def s_end(ex, func, st, dn, av, rt):
    r = st.notes.get(("seq", skey(av[0])))
    if r is not None: return [(st, Ptr(r, Lin.of(r.setseq[1]).scale(8)))]
    return [(st, Ptr(end_region(st, av[0])))]
IT = r"std::_Rb_tree_const_iterator<std::pair<unsigned int, unsigned int> ?>"
@model("^" + IT + r"::operator\*\(\) const$")
def it_deref(ex, func, st, dn, av, rt): return [(st, ex.load(st, func, Ty("ptr"), av[0]))]
@model("^" + IT + r"::operator\+\+\(\)$")
def it_inc(ex, func, st, dn, av, rt):
    p = ex.load(st, func, Ty("ptr"), av[0])
    if not hasattr(p.r, "setseq"): raise Unsupported("++ on an unknown set iterator")
    ex.store(st, func, Ty("ptr"), Ptr(p.r, p.off.add(Lin(8))), av[0]); return [(st, av[0])]
@model(r"^std::operator(!=|==)\(" + IT + " const&, " + IT + r" const&\)$")
def it_cmp(ex, func, st, dn, av, rt):
    p, q = (ex.load(st, func, Ty("ptr"), x) for x in av)
    if p.r is not q.r: r = False
    else:
        d = p.off.sub(q.off); r = eq(ze(d.expr()), 0) if not d.isconst() else d.c == 0
    return [(st, r if "operator==" in dn else Not(r))]
@model("^" + PT + r"find\(std::pair<unsigned int, unsigned int> const&\)( const)?$")
def s_find(ex, func, st, dn, av, rt):
    q = pair_of(ex, func, st, av[1]); a = get(st, av[0]); res = []
    for s2, hit in ex.branch(st, a[q]):
        if hit: r = Region("setit", "obj"); r.setelem = (skey(av[0]), q); res.append((s2, Ptr(r)))
        else: res.append((s2, Ptr(end_region(st, av[0]))))
    return res
@model("^" + PT + r"erase(\[abi:cxx11\])?\(std::_Rb_tree_const_iterator<std::pair<unsigned int, unsigned int> ?>\)$")
def s_erase_it(ex, func, st, dn, av, rt):
    it = av[1]
    if not isinstance(it, Ptr) or not hasattr(it.r, "setelem") or it.r.setelem[0] != skey(av[0]): raise Unsupported("erase of an unknown iterator")
    put(st, av[0], z3.Store(get(st, av[0]), it.r.setelem[1], z3.BoolVal(False)))
    return [(st, Ptr(Region("setit", "obj")))]
