"""C07: values of filters.  Every operator is run for every pair of literal types (the type tag is an enumeration: all 11 x 11 pairs,
complete), with arbitrary values; strings and dates are names of places in a total order, floats are IEEE numbers."""
import re, os
from spec import *
from models import STRS
from symex import FV, FPS
from vals import *
ID = "C07"
INST = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/inst/C07.cpp"
TUS = ["Util/EvalMultitypeValue.cpp", INST]
_off = {}
def off(ex, nm):
    if nm not in _off:
        for m in ex.mods:
            for x, d in m.globals.items():
                if x.lstrip("@").strip('"') == "gvc_off_" + nm:
                    k = re.search(r"constant i64 (\d+)", str(d))
                    if k: _off[nm] = int(k.group(1))
    return _off[nm]
TYPES = ["rdf_term", "iri", "literal", "xsd_string", "xsd_boolean", "xsd_integer", "xsd_decimal", "xsd_float", "xsd_long", "xsd_double", "xsd_datetime"]
RDF, IRI, LIT, STR, BOOL, INT, DEC, FLT, LONG, DBL, DATE = range(11)
NUM = range(INT, DBL + 1)
T, F, E = 0, 1, 2
FIELD = {INT: "i", DEC: "f", FLT: "f", LONG: "l", DBL: "d"}
I2F, I2D, D2L = (z3.Function(n, a, b) for n, a, b in (("int_to_float", z3.IntSort(), FPS["float"]), ("int_to_double", z3.IntSort(), FPS["double"]), ("float_to_long", FPS["float"], z3.IntSort())))

# ---------------------------------------------------------------- strings and dates: names in a total order (ghost value of the place they are stored at)
def place(p):
    if not isinstance(p, Ptr) or p.r is None or p.r.kind != "obj" or not p.off.isconst(): raise Unsupported("a string or date behind " + repr(p))
    return ("val", p.r.id, p.off.c)
def val(st, p):
    k = place(p)
    if k not in st.mem: raise Unsupported("a string or date that was not made here: " + p.r.name)
    return st.mem[k]
def setv(st, p, v): st.mem[place(p)] = v
EMPTY = z3.Int("empty_string")
def m_ctor(ex, func, st, dn, av, rt): setv(st, av[0], EMPTY if ">::basic_string()" in dn else val(st, av[1])); return [(st, None)]
def m_asg(ex, func, st, dn, av, rt): setv(st, av[0], val(st, av[1])); return [(st, av[0])]
def m_unit(ex, func, st, dn, av, rt): return [(st, None)]
REL = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
def m_rel(ex, func, st, dn, av, rt): return [(st, REL[re.match(r"^(?:bool )?std::operator(==|!=|<=|>=|<|>) ?<", dn).group(1)](val(st, av[0]), val(st, av[1])))]
def m_cmp(ex, func, st, dn, av, rt):
    r = fresh("cmp"); a, b = val(st, av[0]), val(st, av[1]); st.assume(z3.And(r >= -(1 << 31), r < 1 << 31, (r == 0) == (a == b), (r < 0) == (a < b))); return [(st, IV(32, r, -(1 << 31), (1 << 31) - 1))]
def m_date(ex, func, st, dn, av, rt): setv(st, av[0], fresh("date")); return [(st, None)]
VF = r"std::vector<float, std::allocator<float> ?>"
MOD = [(re.compile("^" + STRS + r"::basic_string\((" + STRS + r" (const&|&&))?\)$"), m_ctor), (re.compile("^" + STRS + r"::basic_string\((" + STRS + r"(const&|&&))?\)$"), m_ctor), (re.compile("^" + STRS + r"::basic_string\(.*basic_string.*(const&|&&)\)$"), m_ctor),
       (re.compile("^" + STRS + r"::~basic_string\(\)$|^" + VF + r"::~vector\(\)$"), m_unit), (re.compile("^" + STRS + r"::operator=\(.*basic_string.*\)$|^" + VF + r"::operator=\(std::vector.*\)$"), m_asg),
       (re.compile(r"^(bool )?std::operator(==|!=|<=|>=|<|>) ?<(char, std::char_traits<char>|float), std::allocator<(char|float)> ?>\((" + STRS + "|" + VF + r") const&, (" + STRS + "|" + VF + r") const&\)$"), m_rel), (re.compile("^" + STRS + r"::compare\(std::__cxx11::basic_string[^,]*, [^,]*, [^,]* const&\) const$"), m_cmp),
       (re.compile("^" + VF + r"::vector\(std::vector<.*(const&|&&)\)$"), m_ctor), (re.compile(r"^EvalMultitypeValue::DateTime::DateTime\(int, int, int, int, int, int\)$"), m_date)]
OPT = {"conv": {"si": {"float": I2F, "double": I2D}, "fs": {("float", 64): D2L}}}

# ---------------------------------------------------------------- three-valued logic
def tri(op, a, b=None):
    """SPARQL's tables"""
    t, f = z3.IntVal(T), z3.IntVal(F)
    if op == "!": return z3.If(a == T, f, z3.If(a == F, t, z3.IntVal(E)))
    if op == "&&": return z3.If(z3.Or(a == F, b == F), f, z3.If(z3.And(a == T, b == T), t, z3.IntVal(E)))
    if op == "||": return z3.If(z3.Or(a == T, b == T), t, z3.If(z3.And(a == F, b == F), f, z3.IntVal(E)))
    n = lambda x: z3.If(x == T, z3.IntVal(1), z3.IntVal(0))           # false is smaller than true
    return z3.If(z3.Or(a == E, b == E), z3.IntVal(E), z3.If(REL[op](n(a), n(b)), t, f))
def ebv(ex, st, nm): r = Region(nm, "obj"); r.pre = True; v = ex.fresh_int(32, nm, st=st); st.assume(v.e <= 2); r.init[0] = v; r.slotw[0] = 4; return Ptr(r), v.e
EB = "EvalMultitypeValue::EffectiveBooleanValue"
class Tri(Contract):
    op = ""
    def setup(self, ex):
        st = State(); p, a = ebv(ex, st, "left"); ar, b = [p], None
        if self.op != "!": q, b = ebv(ex, st, "right"); ar.append(q)
        yield Case("", st, ar, a=a, b=b)
        if self.op != "!": yield Case("both the same object", st.clone(), [p, p], a=a, b=a)
    def post(self, ex, c, st, ret): return [("the value of the table", ze(ex.U(st, ret)) == tri(self.op, c.a, c.b)), ("operands unchanged", z3.And([ze(ex.U(st, slot(ex, st, p, 0))) == ze(x) for p, x in zip(c.args, (c.a, c.b))]))]
    def apply(self, ex, func, st, av, rt):
        v = [ze(ex.U(st, ex.load(st, func, Ty("i", 32), p))) for p in av]; return [(st, IV(32, tri(self.op, *v), 0, 2))]
def mkt(op): return type("Tri", (Tri,), {"op": op, "name": f"{EB}::operator{op}(" + ("" if op == "!" else f"{EB} const&") + ")", "title": "three-valued " + op})()
TRI = {op: mkt(op) for op in ("!", "||", "&&", "==", "!=", "<", "<=", ">", ">=")}
class GetV(Contract):
    name = EB + "::getValue()"; title = "truth value as a number"
    def setup(self, ex): st = State(); p, a = ebv(ex, st, "value"); yield Case("", st, [p], a=a)
    def post(self, ex, c, st, ret): return [("0 for false, 1 for true, 2 for an error", ze(ex.U(st, ret)) == z3.If(c.a == F, 0, z3.If(c.a == T, 1, 2)))]
class DateOp(Contract):
    op = ""; models = MOD
    def setup(self, ex):
        st = State(); ps = []
        for nm in ("left", "right"): r = Region(nm, "obj"); r.pre = True; p = Ptr(r); setv(st, p, fresh(nm)); ps.append(p)
        yield Case("", st, ps, v=[val(st, p) for p in ps])
    def post(self, ex, c, st, ret): return [("order of the dates", ze(ex.U(st, ret)) == z3.If(REL[self.op](*c.v), T, F))]
    def apply(self, ex, func, st, av, rt): return [(st, IV(32, z3.If(REL[self.op](val(st, av[0]), val(st, av[1])), z3.IntVal(T), z3.IntVal(F)), 0, 1))]
DATEOPS = {op: type("DateOp", (DateOp,), {"op": op, "name": f"EvalMultitypeValue::DateTime::operator{op}(EvalMultitypeValue::DateTime const&)", "title": "dates " + op})() for op in REL}

# ---------------------------------------------------------------- a value
class Val:
    """fields of a value at a state"""
    def __init__(self, ex, st, p):
        g = lambda nm, t: ex.load(st, _F(ex), t, Ptr(p.r, p.off.add(Lin(off(ex, nm)))))
        self.dt = fold(ex.U(st, g("datatype", Ty("i", 32)))); self.b = ze(ex.U(st, g("bool", Ty("i", 32)))); self.f, self.d = g("flt", Ty("float")).e, g("dbl", Ty("double")).e
        self.iv, self.lv = g("int", Ty("i", 32)), g("long", Ty("i", 64)); self.i, self.l = ze(ex.S(st, self.iv)), ze(ex.S(st, self.lv))
        self.term, self.str, self.date = (val(st, Ptr(p.r, p.off.add(Lin(off(ex, k))))) for k in ("term", "str", "date"))
    def all(self): return [ze(self.dt), self.b, self.i, self.l, self.f, self.d, self.term, self.str, self.date]
class _F:
    def __init__(self, ex): self.mod = ex.mods[0]
def value(ex, st, nm, dt):
    r = Region(nm, "obj"); r.pre = True; p = Ptr(r)
    def put(k, v, w): o = off(ex, k); r.init[o] = v; r.slotw[o] = w
    put("datatype", ex.const(32, dt), 4); b = ex.fresh_int(32, nm + ".bool", st=st); st.assume(b.e <= 2); put("bool", b, 4)
    if dt != BOOL: st.assume(b.e == E)          # only booleans carry a truth value (deduceTypeValue, and every operator here)
    put("int", ex.fresh_int(32, nm + ".int", signed=True, st=st), 4); r.signed.add(off(ex, "int")); put("long", ex.fresh_int(64, nm + ".long", signed=True, st=st), 8); r.signed.add(off(ex, "long"))
    put("flt", FV("float", fresh(nm + ".flt", FPS["float"])), 4); put("dbl", FV("double", fresh(nm + ".dbl", FPS["double"])), 8)
    for k in ("term", "str", "date"): setv(st, Ptr(r, Lin(off(ex, k))), fresh(nm + "." + k))
    return p
def promoted(d, e):
    """the type two numbers are compared or calculated in"""
    if d == e: return d
    m = max(d, e)
    return DBL if m == LONG and min(d, e) != INT else m
def conv(v, d, t):
    if d == t: return getattr(v, FIELD[t])
    if d == INT: return {DEC: lambda: I2F(v.i), FLT: lambda: I2F(v.i), LONG: lambda: v.i, DBL: lambda: I2D(v.i)}[t]()
    if d == DEC and t == FLT: return v.f
    if d in (DEC, FLT) and t == DBL: return z3.fpFPToFP(z3.RNE(), v.f, FPS["double"])
    if d == LONG and t == DBL: return I2D(v.l)
    raise Unsupported("conversion")
FREL = {"==": z3.fpEQ, "!=": lambda a, b: z3.Not(z3.fpEQ(a, b)), "<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ}
def tf(b): return z3.If(b, z3.IntVal(T), z3.IntVal(F))
def compared(op, x, y, d, e):
    """what comparing x (type d) with y (type e) must answer"""
    if d == BOOL and e == BOOL: return tri(op, x.b, y.b)
    eq = op in ("==", "!=")
    if (d == BOOL) != (e == BOOL):
        if not eq: return z3.IntVal(E)
        return z3.If((x if d == BOOL else y).b == E, z3.IntVal(E), z3.IntVal(F if op == "==" else T))
    if d in NUM and e in NUM:
        t = promoted(d, e); a, b = conv(x, d, t), conv(y, e, t); return tf((REL if t in (INT, LONG) else FREL)[op](a, b))
    if d == e and d in (LIT, STR): return tf(REL[op](x.str, y.str))
    if d == e == DATE: return tf(REL[op](x.date, y.date))
    if eq: return tf(REL[op](x.term, y.term))
    if d == e == IRI: return tf(REL[op](x.str, y.str))
    return z3.IntVal(E)
RNG = {INT: (-(1 << 31), (1 << 31) - 1), LONG: (-(1 << 63), (1 << 63) - 1)}
def calculated(op, x, y, d, e):
    """(type, value, defined): defined says when the result is representable and not an error"""
    if d not in NUM or e not in NUM: return None
    t = promoted(d, e); a, b = conv(x, d, t), conv(y, e, t)
    if t in RNG:
        lo, hi = RNG[t]
        if op == "/":
            z = z3.Or(b == 0, z3.And(a == lo, b == -1)); q = tdiv(a, b); return t, q, True, z
        v = {"+": a + b, "-": a - b, "*": a * b}[op]; return t, v, z3.And(v >= lo, v <= hi), z3.BoolVal(False)
    return t, {"+": z3.fpAdd, "-": z3.fpSub, "*": z3.fpMul, "/": z3.fpDiv}[op](z3.RNE(), a, b), True, z3.BoolVal(False)
class Deduce(Contract):
    """not proved (text formatting through string streams): only the written form of the value is set (harness)"""
    name = "EvalMultitypeValue::deduceTermValue()"; title = "deduceTermValue"
    def apply(self, ex, func, st, av, rt): setv(st, Ptr(av[0].r, av[0].off.add(Lin(off(ex, "term")))), fresh("term")); return [(st, None)]
DED = Deduce()
class Op(Contract):
    op = ""; opt = OPT; models = MOD; unary = False; budget = 150
    def setup(self, ex):
        for d in range(11):
            for e in ([None] if self.unary else range(11)):
                if self.op == "-" and d == e == DATE: continue          # time spans: bounded
                st = State(); r = Region("result", "obj"); r.pre = True; p = value(ex, st, "left", d); ps = [p] + ([] if self.unary else [value(ex, st, "right", e)])
                yield Case(TYPES[d] + ("" if self.unary else ", " + TYPES[e]), st, [Ptr(r)] + ps, d=d, e=e, ps=ps, v=[Val(ex, st, q) for q in ps], r=Ptr(r))
            if not self.unary and not (self.op == "-" and d == DATE):
                st = State(); r = Region("result", "obj"); r.pre = True; p = value(ex, st, "operand", d); v = Val(ex, st, p); yield Case(TYPES[d] + " with itself", st, [Ptr(r), p, p], d=d, e=d, ps=[p], v=[v, v], r=Ptr(r))
    def post(self, ex, c, st, ret):
        w = Val(ex, st, c.r); return self.result(ex, c, w) + [("operands unchanged", z3.And([z3.And([a == b for a, b in zip(Val(ex, st, p).all(), v.all())]) for p, v in zip(c.ps, c.v)]))]
    def put(self, ex, st, p, v):
        """the result of a recursive call on operands of one type, as this contract says it"""
        q = value(ex, st, "answer", v); return q
    def apply(self, ex, func, st, av, rt):
        r, l, x = av; a, b = Val(ex, st, l), Val(ex, st, x)
        if not isc(a.dt) or not isc(b.dt): raise Unsupported("types of the operands")
        ex.oblige(st, z3.BoolVal(a.dt == b.dt), "the call inside is made on operands of one type", "pre")
        c = Case("", st, [], d=a.dt, e=b.dt, v=[a, b]); out = []
        dts = self.types(c)
        for dt in dts:
            s2 = st.clone() if len(dts) > 1 else st
            q = value(ex, s2, "answer", dt)
            for k, w, t in (("datatype", 4, Ty("i", 32)), ("bool", 4, Ty("i", 32)), ("int", 4, Ty("i", 32)), ("flt", 4, Ty("float")), ("dbl", 8, Ty("double")), ("long", 8, Ty("i", 64))):
                ex.store(s2, func, t, ex.load(s2, _F(ex), t, Ptr(q.r, Lin(off(ex, k)))), Ptr(r.r, r.off.add(Lin(off(ex, k)))))
            for k in ("term", "str", "date"): setv(s2, Ptr(r.r, r.off.add(Lin(off(ex, k)))), val(s2, Ptr(q.r, Lin(off(ex, k)))))
            for _, f in self.result(ex, c, Val(ex, s2, r)): s2.assume(f)
            if feasible(s2.pc): out.append((s2, None))
        return out
class Cmp(Op):
    def types(self, c): return [BOOL]
    def result(self, ex, c, w): return [("a truth value", ze(w.dt) == BOOL), ("the answer", w.b == compared(self.op, *c.v, c.d, c.e))]
class Calc(Op):
    def types(self, c): t = c.d if c.d in NUM else None; return [BOOL] if t is None else [t, BOOL] if self.op == "/" and t in RNG else [t]
    def result(self, ex, c, w):
        k = calculated(self.op, *c.v, c.d, c.e)
        if k is None: return [("an error", z3.And(ze(w.dt) == BOOL, w.b == E))]
        t, v, ok, z = k
        return [("an error exactly for an undefined quotient", z3.And((ze(w.dt) == BOOL) == z, z3.Implies(z, w.b == E))), ("type of the result", z3.Or(z, ze(w.dt) == t)), ("the value", z3.Implies(z3.And(z3.Not(z), ok), getattr(w, FIELD[t]) == v)), ("no truth value", z3.Or(z, w.b == E))]
class Neg(Op):
    unary = True
    def result(self, ex, c, w):
        x = c.v[0]; d = c.d
        if d not in NUM: return [("an error", z3.And(ze(w.dt) == BOOL, w.b == E))]
        if d in RNG: return [("type of the result", ze(w.dt) == d), ("the value", z3.Implies(getattr(x, FIELD[d]) > RNG[d][0], getattr(w, FIELD[d]) == -getattr(x, FIELD[d])))]
        return [("type of the result", ze(w.dt) == d), ("the value", getattr(w, FIELD[d]) == z3.fpNeg(getattr(x, FIELD[d])))]
class Logic(Op):
    def result(self, ex, c, w): return [("a truth value", ze(w.dt) == BOOL), ("the value of the table", w.b == tri(self.op, *[v.b for v in c.v]))]
class Not(Logic): unary = True
def mk(cls, op, uses): 
    c = type(cls.__name__, (cls,), {"op": op, "name": f"EvalMultitypeValue::operator{op}(" + ("" if cls.unary else "EvalMultitypeValue&") + ")", "title": ("unary " if cls.unary else "") + "value " + op})()
    c.uses = (DED, c) + tuple(uses) if not cls.unary and cls is not Logic else (DED,) + tuple(uses); return c
OPS = [mk(Cmp, o, (TRI[o], DATEOPS[o])) for o in REL] + [mk(Calc, o, ()) for o in "+-*/"] + [mk(Neg, "-", ()), mk(Not, "!", (TRI["!"],)), mk(Logic, "&&", (TRI["&&"],)), mk(Logic, "||", (TRI["||"],))]

class Same(Contract):
    name = "EvalMultitypeValue::getSameNumericType(EvalMultitypeValue&)"; title = "getSameNumericType"; opt = OPT; models = MOD
    def setup(self, ex):
        for d in NUM:
            for e in NUM:
                st = State(); ps = [value(ex, st, "left", d), value(ex, st, "right", e)]; yield Case(TYPES[d] + ", " + TYPES[e], st, ps, d=d, e=e, ps=ps, v=[Val(ex, st, q) for q in ps])
    def post(self, ex, c, st, ret):
        t = promoted(c.d, c.e); out = []
        for p, v, d in zip(c.ps, c.v, (c.d, c.e)): w = Val(ex, st, p); out += [("both have the common type", ze(w.dt) == t), ("with the same value", getattr(w, FIELD[t]) == conv(v, d, t)), ("the written form stays", z3.And(w.term == v.term, w.str == v.str))]
        return out
class Laws(Contract):
    """lemmas over what the comparisons were proved to answer: one consistent order"""
    name = EB + "::getValue()"; title = "laws of the comparisons"
    def setup(self, ex): st = State(); p, a = ebv(ex, st, "value"); yield Case("", st, [p], a=a)
    def post(self, ex, c, st, ret):
        out = []
        for d in range(11):
            for e in range(11):
                s2 = State(); x, y = (Val(ex, s2, value(ex, s2, n, k)) for n, k in (("x", d), ("y", e)))
                h = [zb(k) for k in s2.pc] + [v.term == v.str for v, k in ((x, d), (y, e)) if k == IRI]; sub = []
                if d in NUM and e in NUM and promoted(d, e) not in RNG:      # any two numbers of the common type that are not NaN
                    t = promoted(d, e); S = FPS["double" if t == DBL else "float"]
                    for v, k in ((x, d), (y, e)): n = fresh("promoted", S); sub.append((conv(v, k, t), n)); h.append(z3.Not(z3.fpIsNaN(n)))
                hyp = z3.And(h)
                r = {op: compared(op, x, y, d, e) for op in REL}; q = {op: compared(op, y, x, e, d) for op in REL}; nm = f" ({TYPES[d]}, {TYPES[e]})"
                L = [r["=="] == q["=="], r["!="] == tri("!", r["=="]), r["<"] == q[">"], r["<="] == q[">="], z3.Implies(r["<"] != E, z3.And(r["<="] == tri("||", r["<"], r["=="]), r[">="] == tri("!", r["<"]), z3.Sum([z3.If(r[k] == T, 1, 0) for k in ("<", "==", ">")]) == 1))]
                for t, g in zip(("equality is symmetric", "unequal is not equal", "less is greater the other way round", "at most is at least the other way round", "exactly one of less, equal, greater"), L): out.append(("lemma: " + t + nm, z3.Implies(hyp, z3.substitute(g, *sub))))
        return out
FUNCS = list(TRI.values()) + [GetV()] + list(DATEOPS.values()) + OPS + [Same(), Laws()]
HARNESS = {"src": "C07.cpp", "tus": ["Util/Util.cpp", "Util/Bstr.cpp", "Util/EvalMultitypeValue.cpp", "Query/TempResult.cpp", "Query/QueryTree.cpp", "Query/Varset.cpp"], "secs": 15}
ASSUMPTIONS = ["std::string and std::vector<float> are compared lexicographically, i.e. by a total order on their contents (dates without NaN parts)", "deduceTermValue sets the written form of a value and nothing else (harness)", "int and long to float and double: an uninterpreted rounding that is never NaN",
               "a value that is not a boolean carries the truth value error (deduceTypeValue and every operator here establish it)", "sums, differences and products of integers beyond the range of their type are not specified"]
BOUNDED = ["differences of dates, reading values from their written form (deduceTypeValue), logical connectives and IN lists in whole filter expressions (TempResult::doComp): harness only"]
