"""C12: identifiers.  The allocator's state (limit and free list) stands for a set of identifiers in use; every operation is proved
against that set, with other threads allowed any number of allocations and releases whenever the allocator's lock is not held.
Inserting and removing one triple is proved against the two directions of the string dictionary."""
import re, os
from spec import *
from models import MESSAGES, STRS
from vals import *

ID = "C12"
TUS = ["Database/Database.cpp", "Util/Util.cpp", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/inst/C12.cpp"]
INVALID = (1 << 32) - 1; LIT = 2000000000
_off = {}
def off(ex, nm):
    if nm not in _off:
        for m in ex.mods:
            for x, d in m.globals.items():
                if x.lstrip("@").strip('"') == "gvc_off_" + nm:
                    k = re.search(r"constant i64 (\d+)", str(d))
                    if k: _off[nm] = int(k.group(1))
    return _off[nm]
SETT = z3.ArraySort(z3.IntSort(), z3.BoolSort())
qx = z3.Int("qx")

# ---------------------------------------------------------------- the allocator
def havoc(ex, st, c, lab=None):
    """any allocator state another thread may leave: the free list holds identifiers below the limit, each once"""
    o = c.o; L = ex.fresh_int(32, "limit", signed=c.k == "p", st=st); F = fresh("free", SETT); B = z3.IntVal(LIT)
    st.assume(z3.And(L.e >= 0, L.e <= B)); st.assume(z3.ForAll([qx], z3.Implies(z3.Select(F, qx), z3.And(0 <= qx, qx < L.e))))
    st.mem[(o.id, off(ex, "limit_" + c.k))] = L; st.mem[(o.id, off(ex, "num_" + c.k))] = ex.fresh_int(32, "count", signed=c.k == "p", st=st)
    if lab == "nothing free": p = NULL; st.assume(z3.ForAll([qx], z3.Not(z3.Select(F, qx)))); h = None
    elif lab is None: p = Ptr(Region("list", "obj")); h = None
    else:
        r = Region("head", "obj"); r.pre = True; r.heap = "new"; n = ex.fresh_int(32, "head number", st=st); r.init[off(ex, "b_num")] = n; r.slotw[off(ex, "b_num")] = 4; r.slotw[off(ex, "b_next")] = 8
        t = NULL if lab == "one free" else Ptr(Region("tail", "obj")); r.init[off(ex, "b_next")] = t; st.assume(z3.Select(F, n.e))
        if lab == "one free": st.assume(z3.ForAll([qx], z3.Implies(z3.Select(F, qx), qx == n.e)))
        p = Ptr(r); h = (r, n.e, t)
    st.mem[(o.id, off(ex, "free_" + c.k))] = p; st.notes["list"] = (L.e, F, p, h); return L.e, F
def same(p, q): return isinstance(p, Ptr) and isinstance(q, Ptr) and (p.r is q.r) and (p.r is None or (p.off.isconst() and q.off.isconst() and p.off.c == q.off.c))
def listset(ex, st, c, p, deep=0):
    """the identifiers of the list behind p: the old list, its tail, or one new node in front of either"""
    L, F, old, h = st.notes["list"]
    if same(p, old) and (p.r is None or not st.freed.get(p.r.id)): return F
    if h and same(p, h[2]): return z3.Store(F, h[1], z3.BoolVal(False))
    if p.r is None: return z3.K(z3.IntSort(), z3.BoolVal(False))
    if deep == 0 and p.r.heap and not st.freed.get(p.r.id) and p.off.isconst() and p.off.c == 0:
        n, t = slot(ex, st, p, off(ex, "b_num")), slot(ex, st, p, off(ex, "b_next"))
        if n is not None and isinstance(t, Ptr):
            T = listset(ex, st, c, t, 1)
            if T is not None: return z3.Store(T, ze(ex.U(st, n)), z3.BoolVal(True))
    return None
def m_lock(ex, func, st, dn, av, rt):
    c = ex.case
    if not same(av[0], c.lock): return [(st, None)]
    ex.oblige(st, z3.BoolVal(st.notes["held"] is False), "the allocator's lock is not taken twice", "safety"); unchanged(ex, st, c)
    st.notes["held"] = True; havoc(ex, st, c, c.lab); c2 = getattr(c, "pre", None)
    if c2: st.assume(c2(st.notes["list"][0], st.notes["list"][1]))
    st.notes["in"] = st.notes["list"]; return [(st, None)]
def unchanged(ex, st, c):
    L, F, p, h = st.notes["list"]; ex.oblige(st, z3.And(ze(num(ex, st, c, "limit_")) == L, z3.BoolVal(same(slot(ex, st, Ptr(c.o), off(ex, "free_" + c.k)), p))), "the allocator is written only under its lock", "pre")
def num(ex, st, c, f): v = slot(ex, st, Ptr(c.o), off(ex, f + c.k)); return ex.S(st, v) if c.k == "p" else ex.U(st, v)
def m_unlock(ex, func, st, dn, av, rt):
    c = ex.case
    if not same(av[0], c.lock): return [(st, None)]
    ex.oblige(st, z3.BoolVal(st.notes["held"] is True), "the allocator's lock is held when it is released", "safety")
    p = slot(ex, st, Ptr(c.o), off(ex, "free_" + c.k)); st.notes["secs"] = st.notes["secs"] + ((st.notes["in"], ze(num(ex, st, c, "limit_")), listset(ex, st, c, p)),)
    st.notes["held"] = False; havoc(ex, st, c); return [(st, None)]
LOCKS = [(re.compile(r"^std::mutex::lock\(\)$|^pthread_mutex_lock$"), m_lock), (re.compile(r"^std::mutex::unlock\(\)$|^pthread_mutex_unlock$"), m_unlock)]
class Ids(Contract):
    k = "e"; models = LOCKS + MESSAGES; op = "alloc"; budget = 120
    base = property(lambda s: LIT if s.k == "l" else 0)
    def setup(self, ex):
        for lab in ("nothing free", "one free", "several free"):
            st = State(); o = Region("database", "obj"); o.pre = True
            for f, w in (("limit_", 4), ("free_", 8), ("num_", 4)): o.slotw[off(ex, f + self.k)] = w
            st.notes["held"] = False; st.notes["secs"] = (); c = Case(lab, st, [Ptr(o)], o=o, k=self.k, lab=lab, lock=Ptr(o, Lin.of(off(ex, "lock_" + self.k))), pre=None, x=None)
            if self.op == "free":
                x = i32(ex, st, "id") if self.k == "p" else u32(ex, st, "id"); c.args.append(x); st.assume(z3.And(x.e >= self.base, x.e < self.base + LIT)); c.x = x.e - self.base
                c.pre = lambda L, F, c=c: z3.And(c.x >= 0, c.x < L, z3.Not(z3.Select(F, c.x)))
            havoc(ex, st, c); yield c
    def post(self, ex, c, st, ret):
        secs = st.notes["secs"]; L0, F0 = st.notes["list"][:2]; out = [("the lock is released", z3.BoolVal(st.notes["held"] is False)), ("one critical section", z3.BoolVal(len(secs) == 1))]
        if len(secs) != 1: return out
        unchanged(ex, st, c); (L, F, p, h), L2, F2 = secs[0]
        if F2 is None: return out + [("the free list is the old one, its tail, or one node before it", z3.BoolVal(False))]
        y = fresh("y"); use = lambda L, F, x: z3.And(x >= 0, x < L, z3.Not(z3.Select(F, x))); out += [("free identifiers lie below the limit", z3.Implies(z3.Select(F2, y), z3.And(0 <= y, y < L2))), ("the limit stays within bounds", z3.And(L2 >= 0, L2 <= LIT))]
        if self.op == "alloc":
            r = ze(ex.S(st, ret)) if self.k == "p" else ze(ex.U(st, ret)); no = r == (-1 if self.k == "p" else INVALID); x = r - self.base
            out += [("an identifier is handed out only if it is not in use", z3.Or(no, z3.Not(use(L, F, x)))), ("... and on its side of the boundary", z3.Or(no, z3.And(x >= 0, x < LIT))), ("refused only when all are in use", z3.Implies(no, z3.And(L >= LIT, z3.Not(z3.Select(F, y))))),
                    ("afterwards in use: what was, and the one handed out", use(L2, F2, y) == z3.Or(use(L, F, y), z3.And(z3.Not(no), y == x)))]
        else: out.append(("afterwards in use: what was, without the one released", use(L2, F2, y) == z3.And(use(L, F, y), y != c.x)))
        return out
def ids(nm, k, op): return type("Ids", (Ids,), {"name": f"Database::{nm}", "title": f"Database::{nm.split('(')[0]}", "k": k, "op": op})()
ALLOC = [ids("allocEntityID()", "e", "alloc"), ids("allocLiteralID()", "l", "alloc"), ids("allocPredicateID()", "p", "alloc")]
FREE = [ids("freeEntityID(unsigned int)", "e", "free"), ids("freeLiteralID(unsigned int)", "l", "free"), ids("freePredicateID(int)", "p", "free")]
class Side(Contract):
    want = None
    def setup(self, ex): st = State(); v = u32(ex, st, "id"); yield Case("", st, [v], v=v.e)
    def post(self, ex, c, st, ret): return [("the side of the boundary", ze(ret) == (c.v >= LIT if self.lit else c.v < LIT))]
SIDES = [type("Side", (Side,), {"name": f"Util::is_{n}_ele(unsigned int)", "title": f"Util::is_{n}_ele", "lit": l})() for n, l in (("literal", True), ("entity", False))]

# ---------------------------------------------------------------- one triple inserted or removed: the dictionary in both directions
# a name is one of "s", "p", "o"; ghost state: which identifier each direction of the dictionary gives (an expression, INVALID if none)
GH = ("ids", "names", "inuse", "ev")
def place(p):
    if not isinstance(p, Ptr) or p.r is None or not p.off.isconst(): raise Unsupported("a string behind " + repr(p))
    return ("str", p.r.id, p.off.c)
def nameof(st, p):
    k = place(p)
    if k not in st.mem: raise Unsupported("a string that is not part of the triple")
    return st.mem[k]
def m_copy(ex, func, st, dn, av, rt): st.mem[place(av[0])] = nameof(st, av[1]); return [(st, None)]
def m_none(ex, func, st, dn, av, rt): return m_opq(ex, st, av, rt)
def m_opq(ex, st, av, rt):
    if rt.k == "void": return [(st, None)]
    if rt.k == "ptr": return [(st, av[0] if av else NULL)]
    if rt.k == "i" and rt.a == 1: return [(st, fresh("any", z3.BoolSort()))]
    if rt.k == "i": return [(st, ex.fresh_int(rt.a, "any", st=st))]
    return NotImplemented
def canon(c, nm): return "s" if nm == "o" and c.loop else nm
def kindof(dn): return "p" if "Predicate" in dn else "l" if "Literal" in dn else "e"
def kind_of_name(c, nm): return "p" if nm == "p" else "l" if nm == "o" and c.lit else "e"
def ev(st, *e): st.notes["ev"] = st.notes["ev"] + (e,)
def right(ex, st, c, nm, k, what):
    ex.oblige(st, z3.BoolVal(kind_of_name(c, nm) == k), f"{what}: the dictionary of the string's kind is used", "pre")
def g_id(ex, func, st, dn, av, rt):      # getIDByX(string)
    c = ex.case; nm = canon(c, nameof(st, av[-1])); right(ex, st, c, nm, kindof(dn), "lookup"); return [(st, st.notes["ids"][nm])]
def mp(ex, st, f, k, v): d = dict(st.notes[f]); d[k] = v; st.notes[f] = d
def num32(ex, st, v): return v
def s_id(ex, func, st, dn, av, rt):      # setIDByX(string, id)
    c = ex.case; nm = canon(c, nameof(st, av[1])); right(ex, st, c, nm, kindof(dn), "setting"); mp(ex, st, "ids", nm, av[2]); ev(st, "id of name", nm, av[2]); return [(st, True)]
def s_nm(ex, func, st, dn, av, rt):      # setXByID(id, string)
    c = ex.case; nm = canon(c, nameof(st, av[2])); right(ex, st, c, nm, kindof(dn), "setting"); ev(st, "name of id", nm, av[1]); mp(ex, st, "names", nm, av[1]); return [(st, True)]
def d_id(ex, func, st, dn, av, rt):      # subIDByX(string)
    c = ex.case; nm = canon(c, nameof(st, av[1])); right(ex, st, c, nm, kindof(dn), "removal"); ev(st, "drop id of name", nm); mp(ex, st, "ids", nm, INVALIDV(ex, nm)); return [(st, True)]
def d_nm(ex, func, st, dn, av, rt): ev(st, "drop name of id", kindof(dn), av[1]); return [(st, True)]      # subXByID(id)
def INVALIDV(ex, nm): return ex.const(32, (1 << 32) - 1)
U_ = lambda ex, st, v: ze(ex.U(st, v))
DEG = {k: z3.Function("degree_" + k, z3.IntSort(), z3.IntSort()) for k in "elp"}; OUT = z3.Function("out_degree", z3.IntSort(), z3.IntSort())
def deg(ex, func, st, dn, av, rt):
    k = "out" if "OutDegree" in dn else kindof(dn); f = OUT if k == "out" else DEG[k]; x = U_(ex, st, av[1]); v = f(x); st.assume(z3.And(v >= 0, v < 1 << 31))
    ex.oblige(st, z3.BoolVal(any(e[0] == "update" for e in st.notes["ev"])), "a degree is asked for after the triple has left the lists", "pre"); return [(st, IV(32, v, 0, (1 << 31) - 1))]
def upd(ex, func, st, dn, av, rt): ev(st, "update", av[1:4]); r = fresh("updated", z3.BoolSort()); return [(st, r)]
def lockm(ex, func, st, dn, av, rt): r = fresh("granted", z3.BoolSort()); return [(st, r)]
def ex3(ex, func, st, dn, av, rt): ev(st, "asked", av[1:4]); r = ex.case.present; return [(st, r)]
def allocm(ex, func, st, dn, av, rt):
    k = kindof(dn); c = ex.case; r = ex.fresh_int(32, "new" + k, st=st); x = r.e
    st.assume(z3.And(x < LIT) if k != "l" else z3.And(x >= LIT, x < 2 * LIT))      # what the allocator's contract gives, when it is not exhausted
    S = st.notes["inuse"]; kk = "p" if k == "p" else "e"; st.assume(z3.Not(z3.Select(S[kk], x))); mp(ex, st, "inuse", kk, z3.Store(S[kk], x, z3.BoolVal(True))); ev(st, "alloc", k, r); return [(st, r)]
def freem(ex, func, st, dn, av, rt):
    k = kindof(dn); x = U_(ex, st, av[1]); S = st.notes["inuse"]; kk = "p" if k == "p" else "e"
    ex.oblige(st, z3.Select(S[kk], x), "only an identifier in use is released", "pre"); ex.oblige(st, x < LIT if k != "l" else x >= LIT, "... to the side it belongs to", "pre")
    mp(ex, st, "inuse", kk, z3.Store(S[kk], x, z3.BoolVal(False))); ev(st, "free", k, x); return [(st, None)]
def objent(ex, func, st, dn, av, rt): return [(st, z3.BoolVal(not ex.case.lit) if False else (not ex.case.lit))]
def part(ex, func, st, dn, av, rt):
    nm = "p" if "getPredicate" in dn else "o"
    if rt.k == "ptr": return [(st, av[0].add(off(ex, "t_" + nm)) if hasattr(av[0], "add") else Ptr(av[0].r, av[0].off.add(Lin.of(off(ex, "t_" + nm)))))]
    st.mem[place(av[0])] = nm; return [(st, None)]
def istxn(ex, func, st, dn, av, rt): return [(st, (not ex.case.txn) if "operator==" in dn else bool(ex.case.txn))]
def txnp(ex, func, st, dn, av, rt): return [(st, Ptr(ex.case.txn))]
X = r"(unsigned int|int)"
DICT = [(re.compile("^" + STRS + r"::basic_string\(" + STRS + r" ?const&\)$"), m_copy), (re.compile("^" + STRS + r"::~basic_string\(\)$"), m_none),
        (re.compile(r"^KVstore::getIDBy(Entity|Literal|Predicate)\("), g_id), (re.compile(r"^KVstore::setIDBy(Entity|Literal|Predicate)\("), s_id), (re.compile(r"^KVstore::set(Entity|Literal|Predicate)ByID\("), s_nm),
        (re.compile(r"^KVstore::subIDBy(Entity|Literal|Predicate)\("), d_id), (re.compile(r"^KVstore::sub(Entity|Literal|Predicate)ByID\("), d_nm), (re.compile(r"^KVstore::get(Entity|EntityOut|Literal|Predicate)Degree\("), deg),
        (re.compile(r"^KVstore::updateTupleslist_(insert|remove)\("), upd), (re.compile(r"^KVstore::GetExclusiveLock\("), lockm), (re.compile(r"^KVstore::ReleaseExclusiveLock\("), lockm), (re.compile(r"^Database::exist_triple\("), ex3),
        (re.compile(r"^Database::alloc(Entity|Literal|Predicate)ID\("), allocm), (re.compile(r"^Database::free(Entity|Literal|Predicate)ID\("), freem), (re.compile(r"^TripleWithObjType::isObjEntity\("), objent), (re.compile(r"^Triple::get(Predicate|Object)(\[abi:cxx11\])?\("), part),
        (re.compile(r"^bool std::operator(==|!=) ?<Transaction>\("), istxn), (re.compile(r"^std::shared_ptr<Transaction>::~?shared_ptr\("), m_none), (re.compile(r"^std::__shared_ptr_access<Transaction"), txnp),
        (re.compile(r"^Transaction::(SetState|WriteSetInsert)\(|^IDTriple::|^std::this_thread::get_id|^std::basic_ostream<|^std::__atomic_base<|operator<< ?<.*(thread::id|char const\*)|^std::vector<unsigned int.*>::push_back|^std::unordered_map<|^std::__detail::|^Database::checkIsTypePredicate|^bool std::__detail"), m_none)]
class OneTriple(Contract):
    models = DICT + MESSAGES; op = "remove"; budget = 200
    def setup(self, ex):
        for txn in (False, True):
            for known in ([("s", "p", "o")] if self.op == "remove" else [tuple(x for i, x in enumerate("spo") if m >> i & 1) for m in range(8)]):
                for shape in ("two entities", "one entity", "a literal"):
                    lit, loop = shape == "a literal", shape == "one entity"
                    if loop and ("s" in known) != ("o" in known): continue
                    st = State(); o = Region("database", "obj"); o.pre = True; kv = Region("store", "obj"); tr = Region("triple", "obj"); tr.pre = True; o.init[off(ex, "store")] = Ptr(kv)
                    for k, nm in ((0, "s"), (1, "p"), (2, "o")): st.mem[("str", tr.id, off(ex, "t_" + nm))] = nm
                    v = {nm: ex.fresh_int(32, "id of " + nm, st=st) for nm in "spo"}; S = {k: fresh("in use " + k, SETT) for k in "ep"}; V = {nm: U_(ex, st, v[nm]) for nm in "spo"}
                    lab = ("in a transaction, " if txn else "") + shape + ("" if self.op == "remove" else ", known: " + ("".join(known) or "none")); T = Region("transaction", "obj") if txn else None; sp = Region("txn pointer", "obj")
                    st.assume(z3.And(V["s"] < LIT, V["p"] < LIT, V["o"] >= LIT if lit else V["o"] < LIT, V["o"] < 2 * LIT))
                    if not lit: st.assume(V["s"] == V["o"] if loop else V["s"] != V["o"])
                    for nm in known: st.assume(z3.Select(S["p" if nm == "p" else "e"], V[nm]))
                    ids = {nm: v[nm] if nm in known else INVALIDV(ex, nm) for nm in "spo"}; extra = None
                    for unk in ((None,) if self.op == "insert" or txn else (None, "s", "p", "o")):
                        s2 = st.clone(); d = dict(ids)
                        if unk: d[unk] = INVALIDV(ex, unk)
                        if unk and loop and unk in "so": d["s"] = d["o"] = INVALIDV(ex, unk)
                        s2.notes["ids"] = d; s2.notes["names"] = {}; s2.notes["inuse"] = dict(S); s2.notes["ev"] = ()
                        yield Case(lab + (f", {unk} unknown" if unk else ""), s2, [Ptr(o), Ptr(tr), NULL, NULL, Ptr(sp)], V=V, v=v, known=known, lit=lit, loop=loop, txn=T, present=fresh("present", z3.BoolSort()), unk=unk, S=S)
    def post(self, ex, c, st, ret):
        E = st.notes["ev"]; V = c.V; up = [e for e in E if e[0] == "update"]; same = lambda a, b: U_(ex, st, a) == b; r = ze(ret); out = []
        names = ["s", "p"] if c.loop else ["s", "p", "o"]
        if self.op == "remove":
            free = [e for e in E if e[0] == "free"]
            if c.unk: return [("a triple with an unknown part is refused", z3.Not(r)), ("... and changes nothing", z3.BoolVal(not E))]
            if not up: return [("nothing is released for a triple that stays", z3.BoolVal(not free and not any(e[0].startswith("drop") for e in E))), ("it is refused", z3.Not(r))]
            out.append(("the triple that leaves the lists", z3.And(z3.BoolVal(len(up) == 1), *[same(a, V[nm]) for a, nm in zip(up[0][1], "spo")])))
            if c.txn: return out + [("a transaction releases no identifier itself", z3.BoolVal(not free and not any(e[0].startswith("drop") for e in E)))]
            out.append(("only a triple that is there leaves", c.present))
            for nm in names:
                k = kind_of_name(c, nm); n = {"s": "subject", "p": "predicate", "o": "object"}[nm]; fr = z3.Or([z3.BoolVal(False)] + [e[2] == V[nm] for e in free if e[1] == k])
                out.append((f"the {n}'s identifier is released exactly when nothing refers to it any more", fr == (DEG[k](V[nm]) == 0)))
                out.append((f"its name goes with it ({n})", z3.BoolVal(any(e[0] == "drop id of name" and e[1] == nm for e in E)) == fr))
                out.append((f"and so does its entry ({n})", z3.Or([z3.BoolVal(False)] + [same(e[2], V[nm]) for e in E if e[0] == "drop name of id" and e[1] == k]) == fr))
            out.append(("nothing else is released", z3.And([z3.BoolVal(True)] + [z3.Or([e[2] == V[nm] for nm in names if kind_of_name(c, nm) == e[1]] or [z3.BoolVal(False)]) for e in free])))
            return out
        I = st.notes["ids"]; N = st.notes["names"]
        for nm in names:
            n = {"s": "subject", "p": "predicate", "o": "object"}[nm]; al = [e for e in E if e[0] == "alloc"]; cur = U_(ex, st, I[nm]); W = E[:]
            if nm in c.known: out.append((f"the {n} keeps its identifier", z3.And(cur == V[nm], z3.BoolVal(not any(e[0] in ("id of name", "name of id") and e[1] == nm for e in E)))))
            else:
                k = kind_of_name(c, nm); mine = [e[2] for e in al if e[1] == k]
                out.append((f"a new {n} gets a new identifier", z3.Or([z3.BoolVal(False)] + [cur == x.e for x in mine]))); out.append((f"both directions of the dictionary agree ({n})", z3.And(z3.BoolVal(nm in N), U_(ex, st, N[nm]) == cur) if nm in N else z3.BoolVal(False)))
            if up: out.append((f"the lists get the {n}'s identifier", same(up[0][1]["spo".index(nm)], cur)))
        out.append(("one identifier for each new part", z3.BoolVal(len([e for e in E if e[0] == "alloc"]) == len([nm for nm in names if nm not in c.known]))))
        if c.loop and up: out.append(("the object is the subject", U_(ex, st, up[0][1][2]) == U_(ex, st, I["s"])))
        out.append(("the lists are updated at most once", z3.BoolVal(len(up) <= 1)))
        if not c.txn: out.append(("a triple is added unless it is there", z3.BoolVal(bool(up)) == z3.Not(z3.And(z3.BoolVal(len(c.known) == 3), c.present))))
        return out
SIG = "(TripleWithObjType const&, std::vector<unsigned int, std::allocator<unsigned int> >*, std::vector<unsigned int, std::allocator<unsigned int> >*, std::shared_ptr<Transaction>)"
TRIPLE = [type("OneTriple", (OneTriple,), {"name": f"Database::{op}Triple{SIG}", "title": f"Database::{op}Triple", "op": op})() for op in ("remove", "insert")]
FUNCS = ALLOC + FREE + SIDES + TRIPLE
KV = ["KVstore/SITree/" + x for x in ("SITree.cpp", "heap/SIHeap.cpp", "node/SINode.cpp", "node/SIIntlNode.cpp", "node/SILeafNode.cpp", "storage/SIStorage.cpp")] + ["KVstore/ISArray/" + x for x in ("ISArray.cpp", "ISBlockManager.cpp", "ISEntry.cpp")] + ["KVstore/IVArray/IVEntry.cpp", "KVstore/IVArray/IVArray.cpp", "KVstore/IVArray/IVBlockManager.cpp"]
HARNESS = {"src": "C12.cpp", "tus": ["Database/Database.cpp", "KVstore/KVstore.cpp"] + KV + ["Util/" + x + ".cpp" for x in ("Version", "GraphLock", "Latch", "Transaction", "Bstr", "Util", "VList", "Triple")] + ["Query/QueryCache.cpp", "Trie/Trie.cpp"], "secs": 20}
ASSUMPTIONS = ["the dictionary calls of KVstore store, find and drop the pair they are given (C08 for the tree; the arrays behind it are C13)", "insertTriple: the allocator is not exhausted (2 000 000 000 identifiers a kind); what it does then is proved for the allocators themselves", "operator new gives a fresh block; the free list is not written outside alloc*ID and free*ID while they run (init/read/write/saveIDinfo run when the database is opened, closed or saved)", "the caller of free*ID owns the identifier it releases (proved for removeTriple)"]
BOUNDED = ["saving and reading the free lists, batch_insert and batch_remove, agreement over whole histories: harness only (seeded histories of up to 40 updates over a few names, checked in full after every update)"]
