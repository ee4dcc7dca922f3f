"""C11: the comparators used to sort and merge triples, each against the lexicographic order of its components."""
from spec import *

ID = "C11"
TUS = ["Util/Util.cpp", "Util/IDTriple.cpp"]
F = [("s", 0, 4), ("p", 4, 4), ("o", 8, 4)]

def lexless(x, y):
    r = z3.BoolVal(False)
    for a, b in reversed(list(zip(x, y))): r = z3.Or(a < b, z3.And(a == b, r))
    return r
def lemma(n=3):
    """the order itself is a strict total order (proved, not assumed): irreflexive, asymmetric, transitive, trichotomous"""
    A, B, C = ([fresh(f"l{k}{i}") for i in range(n)] for k in "abc")
    same = z3.And([x == y for x, y in zip(A, B)])
    return [("lemma: irreflexive", z3.Not(lexless(A, A))), ("lemma: asymmetric", z3.Not(z3.And(lexless(A, B), lexless(B, A)))),
            ("lemma: transitive", z3.Implies(z3.And(lexless(A, B), lexless(B, C)), lexless(A, C))),
            ("lemma: exactly one of before, equal, after", z3.Or(lexless(A, B), lexless(B, A), same)), ("lemma: equal triples are not ordered", z3.Implies(same, z3.Not(lexless(A, B))))]

class Cmp(Contract):
    order = "spo"; what = "less"
    def setup(self, ex):
        st = State(); p, a = record(ex, st, "a", F); q, b = record(ex, st, "b", F)
        st.assume(z3.And(ze(a["p"]) < (1 << 31), ze(b["p"]) < (1 << 31)))      # predicate identifiers are non-negative ints
        yield Case("", st, [p, q], p=p, q=q, a=[a[c] for c in self.order], b=[b[c] for c in self.order], av=a, bv=b)
        st = State(); p, a = record(ex, st, "a", F); st.assume(ze(a["p"]) < (1 << 31))
        yield Case("same object", st, [p, p], p=p, q=p, a=[a[c] for c in self.order], b=[a[c] for c in self.order], av=a, bv=a)
    def post(self, ex, c, st, ret):
        r = ze(ret)
        if self.what == "less": want = lexless(c.a, c.b)
        elif self.what == "greater": want = lexless(c.b, c.a)
        else: want = z3.And([x == y for x, y in zip(c.a, c.b)])
        ps = [(f"the result is the {self.order} order ({self.what})", r == want)]
        for ptr, v in ((c.p, c.av), (c.q, c.bv)):
            for n, o, w in F: ps.append((f"component {n} of the argument is unchanged", ze(ex.U(st, slot(ex, st, ptr, o))) == ze(v[n])))
        return ps + lemma()
def mk(nm, title_, order_="spo", what_="less"):
    class K(Cmp): name = nm; title = title_; order = order_; what = what_
    return K()
TT = "(TYPE_ID_TUPLE const&, TYPE_ID_TUPLE const&)"
class CmpUnsigned(Contract):
    name = "Util::cmp_unsigned(void const*, void const*)"; title = "Util::cmp_unsigned"
    def setup(self, ex):
        st = State(); p, a = record(ex, st, "a", [("v", 0, 4)]); q, b = record(ex, st, "b", [("v", 0, 4)])
        yield Case("", st, [p, q], a=a["v"], b=b["v"])
    def post(self, ex, c, st, ret):
        r = ex.S(st, ret) if hasattr(ex, "S") else ret.e
        return [("negative exactly when smaller", (ze(r) < 0) == (c.a < c.b)), ("zero exactly when equal", (ze(r) == 0) == (c.a == c.b))]
class ParCmp(Contract):
    name = "Util::parallel_cmp_unsigned(unsigned int, unsigned int)"; title = "Util::parallel_cmp_unsigned"
    def setup(self, ex):
        st = State(); a = u32(ex, st, "a"); b = u32(ex, st, "b")
        yield Case("", st, [a, b], a=a.e, b=b.e)
    def post(self, ex, c, st, ret): return [("unsigned less", ze(ret) == (c.a < c.b))]

class IntCmp(Cmp):
    """the int versions (qsort and parallel): identifiers are below 2^31 there, which is the range of int they read them as"""
    through = False; diff = False
    def setup(self, ex):
        st = State(); p, a = record(ex, st, "a", F); q, b = record(ex, st, "b", F)
        for v in list(a.values()) + list(b.values()): st.assume(ze(v) < (1 << 31))
        args = [p, q]
        if self.through:
            args = []
            for x in (p, q):
                r = Region("cell", "obj"); r.pre = True; r.init[0] = x; r.slotw[0] = 8; args.append(Ptr(r))
        yield Case("", st, args, p=p, q=q, a=[a[c] for c in self.order], b=[b[c] for c in self.order], av=a, bv=b)
    def post(self, ex, c, st, ret):
        if not self.through: return Cmp.post(self, ex, c, st, ret)
        r = ze(ex.S(st, ret)); same = z3.And([x == y for x, y in zip(c.a, c.b)])
        return [("negative exactly when the first is ordered before the second", (r < 0) == lexless(c.a, c.b)), ("zero exactly when all components are equal", (r == 0) == same)]
def mki(nm, title_, order_, thr):
    class K(IntCmp): name = nm; title = title_; order = order_; through = thr
    return K()

FUNCS = [mki(f"Util::parallel_{o}_cmp(int*, int*)", f"Util::parallel_{o}_cmp", o, False) for o in ("spo", "ops", "pso")] + \
        [mki(f"Util::_{o}_cmp(void const*, void const*)", f"Util::_{o}_cmp", o, True) for o in ("spo", "ops", "pso")] + [mk("Util::spo_cmp_idtuple" + TT, "Util::spo_cmp_idtuple", "spo"), mk("Util::ops_cmp_idtuple" + TT, "Util::ops_cmp_idtuple", "ops"),
         mk("Util::pso_cmp_idtuple" + TT, "Util::pso_cmp_idtuple", "pso"), mk("Util::equal" + TT, "Util::equal", "spo", "equal"),
         mk("IDTriple::operator<(IDTriple const&) const", "IDTriple::operator<"), mk("IDTriple::operator>(IDTriple const&) const", "IDTriple::operator>", "spo", "greater"),
         mk("IDTriple::operator=(IDTriple const&) const", "IDTriple::operator=", "spo", "equal"), CmpUnsigned(), ParCmp()]
HARNESS = {"src": "C11.cpp", "tus": ["Util/Util.cpp", "Util/IDTriple.cpp"], "secs": 10}
ASSUMPTIONS = ["std::sort and qsort order by the comparator they are given (library contract; the comparator's order is proved)"]
BOUNDED = ["sorting and unique-ing whole triple arrays: harness only"]
