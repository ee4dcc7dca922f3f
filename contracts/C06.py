"""C06: the life of a transaction.  The table of transactions is a ghost map from identifiers to transaction objects (a family of objects); the checkpoint latch a ghost count of the
running transactions that hold it.  Every call of Txn_manager is proved to move exactly its own transaction along WAITING -> RUNNING -> COMMITTED or ABORTED, to refuse one that is not
running without effect, and to take its stamps from a counter that other threads may move up at any time between two accesses."""
import re, os
from spec import *
from vals import *
import models
from C12 import off

ID = "C06"
TUS = ["Database/Txn_manager.cpp", "Util/Transaction.cpp", "KVstore/KVstore.cpp", "Database/Database.cpp", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/inst/C06.cpp"]
W = 1 << 64; INV = W - 1; WAITING, RUNNING, COMMITTED, ABORTED = range(4); BOOLS = z3.ArraySort(z3.IntSort(), z3.BoolSort()); G = lambda n: ("ghost", n); SLOT = 24
k1, k2 = z3.Ints("k1 k2")
FIELDS = {"tid": 8, "cid": 8, "state": 4, "start": 8, "end": 8, "iso": 4, "upd": 4}
class View:
    def __init__(s, ex, st, c):
        for f in FIELDS: setattr(s, f, ex.arr_of(st, c.F, off(ex, "t_" + f)))
        s.dom = st.mem[G("dom")]; s.obj = ex.arr_of(st, c.M, 8); s.cnt = ze(ex.U(st, slot(ex, st, Ptr(c.T), off(ex, "tm_cnt")))); s.ck = st.mem[G("ck")]; s.tl = st.mem[G("tl")]
    def inv(s):
        t, u = k1, k2; return [("the table holds the object of its transaction", forall([t], z3.Implies(s.dom[t], z3.And(0 <= t, t < s.cnt, s.obj[t] > 0, s.tid[s.obj[t]] == t)), [s.dom[t]])), ("a transaction of the table has begun", forall([t], z3.Implies(s.dom[t], z3.And(s.state[s.obj[t]] >= RUNNING, s.state[s.obj[t]] <= ABORTED)), [s.dom[t]])),
                               ("no stamp is above the counter", forall([t], z3.Implies(s.dom[t], s.cid[s.obj[t]] <= s.cnt), [s.dom[t]]))]
    def same(s, o, *fs): return z3.And([getattr(s, f) == getattr(o, f) for f in fs])
    def only(s, o, k, *fs):      # nothing but the given fields of object k changed
        out = []
        for f in FIELDS: a, b = getattr(s, f), getattr(o, f); out.append(forall([k1], z3.Implies(k1 != k, a[k1] == b[k1])) if f in fs else a == b)
        return [("only the transaction itself changes, in nothing else", z3.And(out)), ("the table stays", s.same(o, "dom", "obj"))]
def put(st, r, o, N): st.mem[(r.id, o)] = N; st.writes.append((r, o, None, N))
def at(c, t): return Ptr(c.M, Lin.of(t).scale(SLOT))
def tof(p):
    q = p.off.divmod(SLOT)
    if q is None or q[1]: raise Unsupported("not the place of a transaction")
    return ze(q[0])
# ---- locks
def which(ex, p):
    c = ex.case
    if not isinstance(p, Ptr) or p.r is not c.T or not p.off.isconst(): raise Unsupported("another latch")
    for n in ("tl", "ck"):
        if p.off.c == off(ex, "tm_" + n): return n
    raise Unsupported("another latch")
def m_shared(ex, func, st, dn, av, rt):
    n = which(ex, av[0])
    if n == "tl": ex.oblige(st, st.mem[G("tl")] == 0, "the table latch is not taken twice", "safety"); st.mem[G("tl")] = z3.IntVal(1)
    else: st.mem[G("ck")] = st.mem[G("ck")] + 1
    return [(st, None)]
def m_excl(ex, func, st, dn, av, rt):
    n = which(ex, av[0])
    if n == "tl": ex.oblige(st, st.mem[G("tl")] == 0, "the table latch is not taken twice", "safety"); st.mem[G("tl")] = z3.IntVal(2)
    else: raise Unsupported("exclusive checkpoint latch")
    return [(st, None)]
def m_unl(ex, func, st, dn, av, rt):
    n = which(ex, av[0])
    if n == "tl": ex.oblige(st, st.mem[G("tl")] > 0, "the table latch is held when it is released", "safety"); st.mem[G("tl")] = z3.IntVal(0)
    else: ex.oblige(st, st.mem[G("ck")] > 0, "the checkpoint latch is held when it is released", "safety"); st.mem[G("ck")] = st.mem[G("ck")] - 1
    return [(st, True)]
# ---- the table
def tbl(ex, st, p, write=False):
    c = ex.case
    if not isinstance(p, Ptr) or p.r is not c.T or not p.off.isconst() or p.off.c != off(ex, "tm_table"): raise Unsupported("another map")
    if getattr(c, "latched", True): ex.oblige(st, st.mem[G("tl")] == 2 if write else st.mem[G("tl")] >= 1, "the table is " + ("changed under its exclusive" if write else "read under its") + " latch", "pre")
def key_at(ex, func, st, p): return ze(ex.U(st, ex.load(st, func, Ty("i", 64), p)))
def m_find(ex, func, st, dn, av, rt):
    tbl(ex, st, av[0]); t = key_at(ex, func, st, av[1]); d = st.mem[G("dom")]; return [(st, Ptr(ex.case.M, Lin.of(z3.If(d[t], t, z3.IntVal(W))).scale(SLOT)))]
def m_end(ex, func, st, dn, av, rt): return [(st, at(ex.case, z3.IntVal(W)))]
def first_from(ex, st, lo, strict):
    c = ex.case; d = st.mem[G("dom")]; ge = (lambda t: t > lo) if strict else (lambda t: t >= lo); t = fresh("next transaction"); s2 = st.clone()
    st.assume(z3.And(d[t], ge(t), t >= 0, t < W)); st.assume(forall([k1], z3.Implies(z3.And(d[k1], ge(k1)), k1 >= t), [d[k1]])); s2.assume(forall([k1], z3.Implies(d[k1], z3.Not(ge(k1))), [d[k1]])); return [(st, at(c, t)), (s2, at(c, z3.IntVal(W)))]
def m_begin(ex, func, st, dn, av, rt): return first_from(ex, st, z3.IntVal(-1), True)
def m_inc(ex, func, st, dn, av, rt):
    p = av[0] if len(av) < 3 else av[0]; q = ex.load(st, func, Ty("ptr"), p); t = tof(q); out = []; ex.oblige(st, t < W, "the end is not passed", "safety")
    for s, r in first_from(ex, st, t, True): ex.store(s, func, Ty("ptr"), r, p); out.append((s, q))
    return out
def m_arrow(ex, func, st, dn, av, rt):
    p = ex.load(st, func, Ty("ptr"), av[0]); ex.oblige(st, st.mem[G("dom")][tof(p)], "the place looked at has a transaction", "safety"); return [(st, p)]
def m_cmp(ex, func, st, dn, av, rt):
    p, q = (ex.load(st, func, Ty("ptr"), x) for x in av); r = tof(p) == tof(q); return [(st, r if "operator==" in dn else Not(r))]
def m_index(ex, func, st, dn, av, rt):
    c = ex.case; t = key_at(ex, func, st, av[1]); d = st.mem[G("dom")]
    out = []
    for s2, here in ex.branch(st, d[t]):
        tbl(ex, s2, av[0], not here)
        if not here: a = ex.arr_of(s2, c.M, 8); put(s2, c.M, 8, z3.Store(a, t, z3.IntVal(0))); s2.mem[G("dom")] = z3.Store(d, t, z3.BoolVal(True))
        out.append((s2, Ptr(c.M, Lin.of(t).scale(SLOT).add(Lin(8)))))
    return out
def m_pair(ex, func, st, dn, av, rt):
    for T, o, p in ((Ty("i", 64), 0, av[1]), (Ty("ptr"), 8, av[2])): ex.store(st, func, T, ex.load(st, func, T, p), Ptr(av[0].r, av[0].off.add(Lin(o)), av[0].key))
    return [(st, None)]
def m_insert(ex, func, st, dn, av, rt):
    c = ex.case; tbl(ex, st, av[0], True); t = key_at(ex, func, st, av[1]); p = ex.load(st, func, Ty("ptr"), Ptr(av[1].r, av[1].off.add(Lin(8)), av[1].key)); d = st.mem[G("dom")]; a = ex.arr_of(st, c.M, 8)
    k = z3.IntVal(0) if p.r is None else ze(p.key); put(st, c.M, 8, z3.If(d[t], a, z3.Store(a, t, k))); was = d[t]; st.mem[G("dom")] = z3.Store(d, t, z3.BoolVal(True)); return [(st, AV([at(c, t), Not(was)]))]
# ---- shared pointers
def sp_copy(ex, func, st, dn, av, rt): ex.store(st, func, Ty("ptr"), ex.load(st, func, Ty("ptr"), av[1]), av[0]); return [(st, None)]
def sp_null(ex, func, st, dn, av, rt): ex.store(st, func, Ty("ptr"), NULL, av[0]); return [(st, None)]
def sp_get(ex, func, st, dn, av, rt):
    p = ex.load(st, func, Ty("ptr"), av[0]); return [(st, p)]
def sp_is(ex, func, st, dn, av, rt):
    p = ex.load(st, func, Ty("ptr"), av[0]); e = True if p.r is None else eq(ze(p.key), 0); return [(st, e if "operator==" in dn else Not(e))]
def m_none(ex, func, st, dn, av, rt): return [(st, None if rt.k == "void" else av[0] if rt.k == "ptr" else ex.fresh_int(rt.a, "x", st=st) if rt.k == "i" and rt.a > 1 else True)]
def m_make(ex, func, st, dn, av, rt):
    """make_shared: an object not there before, after the constructor's contract"""
    c = ex.case; k = fresh("made"); v = View(ex, st, c); st.assume(k > 0); st.assume(forall([k1], z3.Implies(v.dom[k1], v.obj[k1] != k), [v.dom[k1]])); tid = key_at(ex, func, st, av[3]); iso = ex.U(st, ex.load(st, func, Ty("i", 32), av[4])); iso = ze(iso)
    for f, x in (("tid", tid), ("state", z3.IntVal(WAITING)), ("iso", z3.If(z3.And(iso >= 1, iso <= 3), iso, 2)), ("upd", z3.IntVal(0)), ("start", ze(ex.U(st, ex.load(st, func, Ty("i", 64), av[2]))))):
        o = off(ex, "t_" + f); put(st, c.F, o, z3.Store(ex.arr_of(st, c.F, o), k, x))
    for f in ("cid", "end"): o = off(ex, "t_" + f); x = fresh(f); st.assume(z3.And(x >= 0, x < W)); put(st, c.F, o, z3.Store(ex.arr_of(st, c.F, o), k, x))
    st.notes["made"] = k; ex.store(st, func, Ty("ptr"), Ptr(c.F, Lin(0), k), av[0]); return [(st, None)]
# ---- the database, by what is asked of it
def txn_of(ex, func, st, p):
    q = ex.load(st, func, Ty("ptr"), p)
    if q.r is None: return z3.IntVal(0)
    if q.r is not ex.case.F: raise Unsupported("another transaction object")
    return ze(q.key)
def m_db(kind):
    def m(ex, func, st, dn, av, rt):
        c = ex.case; k = txn_of(ex, func, st, av[-1]); v = View(ex, st, c); ex.oblige(st, z3.BoolVal(isinstance(av[0], Ptr) and av[0].r is c.D), "it is the manager's own database", "pre"); ex.oblige(st, v.tl == 0, "the table latch is not held while the database works", "pre")
        st.notes["did"] = st.notes.get("did", ()) + ((kind, k, v.state[k], v.cid[k], v.ck),)
        if kind != "query": return [(st, None)]
        ex.oblige(st, z3.BoolVal(av[-3] is True and av[-2] is False) if isinstance(av[-3], bool) else z3.And(zb(av[-3]), z3.Not(zb(av[-2]))), "updates are allowed, the result is not printed", "pre")
        a = fresh("aborted", z3.BoolSort()); o = off(ex, "t_state"); s = ex.arr_of(st, c.F, o); put(st, c.F, o, z3.If(a, z3.Store(s, k, z3.IntVal(ABORTED)), s)); r = ex.fresh_int(32, "answer of the database", signed=True, st=st); st.notes["answer"] = ze(ex.S(st, r)); st.notes["aborted"] = a; return [(st, r)]
    return m
def m_dirty(ex, func, st, dn, av, rt): st.notes["did"] = st.notes.get("did", ()) + (("dirty", txn_of(ex, func, st, av[1]), None, None, None),); return [(st, None)]
def m_check(ex, func, st, dn, av, rt): st.notes["did"] = st.notes.get("did", ()) + (("checkpoint", None, None, None, View(ex, st, ex.case).ck),); return [(st, None)]
MAP = r"std::map<unsigned long long, std::shared_ptr<Transaction>, .*>::"; IT = r"std::_Rb_tree_iterator<std::pair<unsigned long long const, std::shared_ptr<Transaction> > >"; S = models.STRS
MODELS = [(re.compile(r"^Latch::lockShared\(\)$"), m_shared), (re.compile(r"^Latch::lockExclusive\(\)$"), m_excl), (re.compile(r"^Latch::unlock\(\)$"), m_unl),
    (re.compile("^" + MAP + r"find\("), m_find), (re.compile("^" + MAP + r"end\(\)"), m_end), (re.compile("^" + MAP + r"begin\(\)"), m_begin), (re.compile("^" + MAP + r"operator\[\]\("), m_index), (re.compile(r"^std::enable_if<.*" + MAP + r"insert<"), m_insert),
    (re.compile("^" + IT + r"::operator\+\+\(int\)"), m_inc), (re.compile("^" + IT + r"::operator\+\+\(\)"), m_inc), (re.compile("^" + IT + r"::operator(->|\*)\(\) const"), m_arrow), (re.compile("^std::operator(==|!=)\\(" + IT), m_cmp),
    (re.compile(r"^_ZNSt4pairIySt10shared_ptrI11TransactionEEC2|^std::pair<unsigned long long, std::shared_ptr<Transaction> >::pair"), m_pair), (re.compile(r"^_ZNSt4pairIySt10shared_ptrI11TransactionEED|^std::pair<unsigned long long, std::shared_ptr<Transaction> >::~pair"), m_none),
    (re.compile(r"^std::shared_ptr<Transaction>::shared_ptr\(std::shared_ptr<Transaction> (const&|&&)\)"), sp_copy), (re.compile(r"^std::shared_ptr<Transaction>::shared_ptr\(decltype\(nullptr\)\)"), sp_null), (re.compile(r"^std::shared_ptr<Transaction>::~shared_ptr\(\)"), m_none), (re.compile(r"^std::__shared_ptr_access<Transaction.*>::operator(->|\*)\(\) const|^std::__shared_ptr<Transaction.*::get\(\) const"), sp_get),
    (re.compile(r"^bool std::operator(==|!=) ?<Transaction>\("), sp_is), (re.compile(r"^.*std::make_shared<Transaction, "), m_make),
    (re.compile(r"^Database::TransactionCommit\("), m_db("commit")), (re.compile(r"^Database::TransactionRollback\("), m_db("rollback")), (re.compile(r"^Database::query\("), m_db("query")), (re.compile(r"^Txn_manager::add_dirty_keys\("), m_dirty), (re.compile(r"^Txn_manager::Checkpoint\(\)"), m_check),
    (re.compile(r"^ResultSet::|^Util::get_cur_time"), m_none), (re.compile(r"^std::operator&\(std::memory_order|^std::__cmpexch_failure_order"), lambda ex, func, st, dn, av, rt: [(st, ex.const(32, 5))])] + models.MESSAGES
def interfere(ex, st, p):
    """other threads begin transactions (and count commits) at any time"""
    c = ex.case
    if p.r is not c.T or not p.off.isconst(): raise Unsupported("another atomic variable")
    if p.off.c == off(ex, "tm_cnt"): v = ex.fresh_int(64, "counter", st=st); st.assume(z3.And(v.e >= ze(ex.U(st, slot(ex, st, Ptr(c.T), p.off.c))), v.e < INV)); st.mem[(c.T.id, p.off.c)] = v
    elif p.off.c == off(ex, "tm_done"): st.mem[(c.T.id, p.off.c)] = ex.fresh_int(32, "commits", st=st)
    else: raise Unsupported("another atomic variable")
def stepped(ex, st, p, old, new):
    if p.off.c == off(ex, "tm_cnt"): st.notes["steps"] = st.notes.get("steps", ()) + ((ze(ex.U(st, old)), ze(ex.U(st, new))),)
class Txn(Contract):
    models = MODELS; budget = 60
    def base(self, ex, latched=0, dbs=(True,)):
        for db in dbs:
            st = State(); F = Region("transaction", "fam"); F.tl = None
            for f, w in FIELDS.items(): F.slotw[off(ex, "t_" + f)] = w
            F.signed |= {off(ex, "t_upd")}; M = Region("table of transactions", "arr", stride=SLOT); M.slotw.update({0: 8, 8: 8}); M.ptrfam[8] = F; M.pre = True; T = Region("manager", "obj"); T.pre = True; D = Region("database", "obj"); D.pre = True
            T.init[off(ex, "tm_db")] = Ptr(D) if db else NULL; T.slotw[off(ex, "tm_db")] = 8; n = u64(ex, st, "counter", INV); T.init[off(ex, "tm_cnt")] = n; T.slotw[off(ex, "tm_cnt")] = 8; T.slotw[off(ex, "tm_done")] = 4; st.assume(z3.And(n.e >= 1, n.e < INV))
            st.mem[G("dom")] = fresh("in the table", BOOLS); st.mem[G("ck")] = fresh("holders"); st.mem[G("tl")] = z3.IntVal(latched); c = Case("" if db else "no database", st, [], F=F, M=M, T=T, D=D, db=db, interfere=interfere, stepped=stepped); st.assume(st.mem[G("ck")] >= 0)
            v = View(ex, st, c); idx = ex.arr_of(st, M, 0); st.assume(forall([k1], idx[k1] == k1, [idx[k1]]))
            for f, w in FIELDS.items(): a = getattr(v, f); st.assume(forall([k1], z3.And(a[k1] >= (-(1 << 31) if f == "upd" else 0), a[k1] < (1 << 31 if f == "upd" else 1 << 8 * w)), [a[k1]]))
            st.assume(forall([k1], v.obj[k1] >= 0, [v.obj[k1]]))
            for _, f in v.inv(): st.assume(f)
            c.v0 = v; yield c
    def ready(self, ex, c, args, **kw): c.args = args; c.__dict__.update(kw); c.v0 = View(ex, c.st, c); return c
    def sp(self, c, k): o = Region("pointer", "obj"); o.init[0] = Ptr(c.F, Lin(0), k); o.slotw[0] = 8; return Ptr(o)
    def result(self, ex, c, st):
        v = View(ex, st, c); return v, v.inv() + [("the table latch is free again", v.tl == 0), ("the counter never goes down", v.cnt >= c.v0.cnt)]
    def steps(self, ex, c, st, n): s = st.notes.get("steps", ()); return [("the counter moves in atomic steps only", z3.BoolVal(len([w for w in st.writes if w[0] is c.T and w[1] == off(ex, "tm_cnt")]) == len(s) == n))]
    def did(self, st, *kinds): return z3.BoolVal(tuple(d[0] for d in st.notes.get("did", ())) == kinds)
    def call(self, ex, st, av):
        c = ex.case
        if av[0].r is not c.T: raise Unsupported("another manager")
        return c, View(ex, st, c)
class NextID(Txn):
    name = "Txn_manager::ArrangeTID()"; title = "Txn_manager::ArrangeTID"
    def setup(self, ex):
        for c in self.base(ex): yield self.ready(ex, c, [Ptr(c.T)])
    def post(self, ex, c, st, ret):
        v = View(ex, st, c); s = st.notes.get("steps", ()); r = ze(ex.U(st, ret)); out = self.steps(ex, c, st, 1)
        if len(s) != 1: return out
        return out + [("the identifier is the counter before its step", r == s[0][0]), ("nobody else gets it: the counter is above it", s[0][1] == s[0][0] + 1), ("it is not below any stamp given before", r >= c.v0.cnt)] + v.only(c.v0, z3.IntVal(0))
    def apply(self, ex, func, st, av, rt):
        c, v = self.call(ex, st, av); interfere(ex, st, Ptr(c.T, Lin(off(ex, "tm_cnt")))); r = View(ex, st, c).cnt; w = ex.fresh_int(64, "counter", st=st); st.assume(w.e == r + 1); put(st, c.T, off(ex, "tm_cnt"), w); st.notes["tid"] = r; return [(st, IV(64, r, 0, INV))]
class CommitID(Txn):
    name = "Txn_manager::ArrangeCommitID()"; title = "Txn_manager::ArrangeCommitID"
    def setup(self, ex):
        for c in self.base(ex): yield self.ready(ex, c, [Ptr(c.T)])
    def post(self, ex, c, st, ret): v = View(ex, st, c); return self.steps(ex, c, st, 0) + [("the counter as it is at this moment", ze(ex.U(st, ret)) == v.cnt), ("not below any stamp given before", v.cnt >= c.v0.cnt)] + v.only(c.v0, z3.IntVal(0))
    def apply(self, ex, func, st, av, rt): c, v = self.call(ex, st, av); interfere(ex, st, Ptr(c.T, Lin(off(ex, "tm_cnt")))); st.notes["stamp"] = View(ex, st, c).cnt; return [(st, IV(64, st.notes["stamp"], 0, INV))]
class Lookup(Txn):
    name = "Txn_manager::get_transaction(unsigned long long)"; title = "Txn_manager::get_transaction"
    def setup(self, ex):
        for c in self.base(ex): t = u64(ex, c.st, "TID"); o = Region("result", "obj"); yield self.ready(ex, c, [Ptr(o), Ptr(c.T), t], t=t.e, o=o)
    def post(self, ex, c, st, ret):
        v, out = self.result(ex, c, st); p = slot(ex, st, Ptr(c.o), 0)
        if p is None: return [("a pointer is returned", z3.BoolVal(False))]
        k = z3.IntVal(0) if p.r is None else ze(p.key); return out + v.only(c.v0, z3.IntVal(0)) + [("the object of the transaction, or none", k == z3.If(c.v0.dom[c.t], c.v0.obj[c.t], 0)), ("the checkpoint latch stays", v.ck == c.v0.ck)]
    def apply(self, ex, func, st, av, rt):
        c = ex.case
        if av[1].r is not c.T: raise Unsupported("another manager")
        v = View(ex, st, c); t = ze(ex.U(st, av[2])); ex.oblige(st, v.tl == 0, "the table latch is not taken twice", "safety"); ex.store(st, func, Ty("ptr"), Ptr(c.F, Lin(0), z3.If(v.dom[t], v.obj[t], 0)), av[0]); return [(st, None)]
class Public(Lookup):
    name = "Txn_manager::Get_Transaction(unsigned long long)"; title = "Txn_manager::Get_Transaction"
class AddTxn(Txn):
    name = "Txn_manager::add_transaction(unsigned long long, std::shared_ptr<Transaction>)"; title = "Txn_manager::add_transaction"
    def setup(self, ex):
        for c in self.base(ex): t = u64(ex, c.st, "TID"); k = fresh("object"); c.st.assume(k > 0); yield self.ready(ex, c, [Ptr(c.T), t, self.sp(c, k)], t=t.e, k=k)
    def facts(self, v, v0, t, k): return [("a new transaction is in the table, no other is touched", z3.And(v.dom == z3.Store(v0.dom, t, z3.BoolVal(True)), z3.Implies(z3.Not(v0.dom[t]), v.obj == z3.Store(v0.obj, t, k)), z3.Implies(v0.dom[t], v.obj == v0.obj))), ("no transaction object changes", v.same(v0, *FIELDS)), ("the latches are as before", z3.And(v.tl == 0, v.ck == v0.ck))]
    def post(self, ex, c, st, ret): return self.facts(View(ex, st, c), c.v0, c.t, c.k)
    def apply(self, ex, func, st, av, rt):
        c, v = self.call(ex, st, av); t = ze(ex.U(st, av[1])); k = txn_of(ex, func, st, av[2]); ex.oblige(st, v.tl == 0, "the table latch is not taken twice", "safety"); ex.oblige(st, z3.Not(v.dom[t]), "the identifier is not in the table yet", "pre"); put(st, c.M, 8, z3.Store(v.obj, t, k)); st.mem[G("dom")] = z3.Store(v.dom, t, z3.BoolVal(True)); return [(st, True)]
GT, AT = Lookup(), AddTxn()
class Begin(Txn):
    name = "Txn_manager::Begin(IsolationLevelType)"; title = "Txn_manager::Begin"; uses = (NextID(), AT)
    def setup(self, ex):
        for c in self.base(ex): i = u32(ex, c.st, "isolation"); yield self.ready(ex, c, [Ptr(c.T), i], iso=i.e)
    def post(self, ex, c, st, ret):
        v, out = self.result(ex, c, st); t = ze(ex.U(st, ret)); k = v.obj[t]; o = c.v0; return out + [("an identifier of its own, not below any stamp given", z3.And(t >= o.cnt, z3.Not(o.dom[t]), t < v.cnt)), ("it is in the table and running", z3.And(v.dom[t], v.state[k] == RUNNING)), ("its snapshot is its identifier", z3.And(v.tid[k] == t, v.cid[k] == t)), ("nothing done yet, at the level asked for", z3.And(v.upd[k] == 0, v.iso[k] == z3.If(z3.And(c.iso >= 1, c.iso <= 3), c.iso, 2))),
            ("every other transaction stays as it is", forall([k1], z3.Implies(k1 != t, z3.And(v.dom[k1] == o.dom[k1], z3.Implies(o.dom[k1], z3.And([v.obj[k1] == o.obj[k1]] + [getattr(v, f)[o.obj[k1]] == getattr(o, f)[o.obj[k1]] for f in FIELDS])))))), ("it holds the checkpoint latch", v.ck == o.ck + 1)]
class Ends(Txn):
    refused = "commit"
    def running(self, c): return z3.And(c.v0.dom[c.t], c.v0.state[c.v0.obj[c.t]] == RUNNING)
    def start(self, ex, c): t = u64(ex, c.st, "TID"); v = View(ex, c.st, c); c.st.assume(z3.Implies(z3.And(v.dom[t.e], v.state[v.obj[t.e]] == RUNNING), v.ck > 0)); return t
    def refuse(self, c, st, v, r, code): run = self.running(c); return [("one that is not running is refused without effect", z3.Implies(z3.Not(run), z3.And([r == z3.If(c.v0.dom[c.t], code, -1), v.same(c.v0, "dom", "obj", "ck", *FIELDS), self.did(st)])))]
class Commit(Ends):
    name = "Txn_manager::Commit(unsigned long long)"; title = "Txn_manager::Commit"; uses = (GT, CommitID())
    def setup(self, ex):
        for c in self.base(ex, dbs=(True, False)): t = self.start(ex, c); yield self.ready(ex, c, [Ptr(c.T), t], t=t.e, no_exit_ok=False)
    def post(self, ex, c, st, ret):
        v, out = self.result(ex, c, st); o = c.v0; run = self.running(c); k = o.obj[c.t]; r = ze(ex.S(st, ret)); d = st.notes.get("did", ()); out += self.refuse(c, st, v, r, 1) + v.only(o, k, "cid", "state", "end") + [("no step of the counter", z3.BoolVal(not st.notes.get("steps")))]
        if not c.db: return out + [("without a database: refused, still running", z3.Implies(run, z3.And(r == -1, v.state == o.state, v.ck == o.ck, self.did(st))))]
        out.append(("a running one is committed", z3.Implies(run, z3.And(r == 0, v.state[k] == COMMITTED, v.ck == o.ck - 1))))
        kinds = [x[0] for x in d]; once = kinds[:2] == ["commit", "dirty"] and kinds[2:] in ([], ["checkpoint"]); out.append(("the database commits it, once, and its keys are noted", z3.Implies(run, z3.BoolVal(once))))
        if once: out += [("it is this transaction, still running, with its stamp, and the latch held", z3.Implies(run, z3.And(d[0][1] == k, d[1][1] == k, d[0][2] == RUNNING, d[0][3] == v.cid[k], d[0][4] == o.ck))), ("the stamp was the counter's at a moment of the commit", z3.Implies(run, z3.And(v.cid[k] >= o.cnt, v.cid[k] <= v.cnt)))] + [("a checkpoint only after its own latch is released", x[4] == o.ck - 1) for x in d[2:]]
        return out
class Abort(Ends):
    name = "Txn_manager::Abort(unsigned long long)"; title = "Txn_manager::Abort"; uses = (GT,)
    def setup(self, ex):
        for c in self.base(ex, dbs=(True, False)): t = u64(ex, c.st, "TID"); v = View(ex, c.st, c); c.st.assume(z3.Implies(v.dom[t.e], v.ck > 0)); yield self.ready(ex, c, [Ptr(c.T), t], t=t.e)
    def facts(self, v, o, t, r, db=True):
        k = o.obj[t]; out = v.only(o, k, "state", "end") + [("unknown: refused without effect", z3.Implies(z3.Not(o.dom[t]), z3.And(r == -1, v.same(o, "state", "end", "ck"))))]
        return out + ([("aborted, and its checkpoint latch is free", z3.Implies(o.dom[t], z3.And(r == 0, v.state[k] == ABORTED, v.ck == o.ck - 1)))] if db else [("without a database: refused, as it was", z3.Implies(o.dom[t], z3.And(r == -1, v.state == o.state, v.ck == o.ck)))])
    def post(self, ex, c, st, ret):
        v, out = self.result(ex, c, st); d = st.notes.get("did", ()); out += self.facts(v, c.v0, c.t, ze(ex.S(st, ret)), c.db); yes = c.db
        here = c.v0.dom[c.t]; out.append(("the database rolls it back, once", z3.Implies(here, self.did(st, "rollback")) if yes else self.did(st)))
        if len(d) == 1: out.append(("it is this transaction, and the latch still held", z3.And(d[0][1] == c.v0.obj[c.t], d[0][4] == c.v0.ck)))
        return out
    def apply(self, ex, func, st, av, rt):
        c, v = self.call(ex, st, av); t = ze(ex.U(st, av[1])); ex.oblige(st, v.tl == 0, "the table latch is not taken twice", "safety"); ex.oblige(st, z3.Implies(v.dom[t], v.ck > 0), "the transaction holds the checkpoint latch", "pre")
        for f in ("state", "end"): o = off(ex, "t_" + f); a = fresh(f, int_arr()); st.assume(forall([k1], z3.And(a[k1] >= 0, a[k1] < W), [a[k1]])); put(st, c.F, o, a)
        st.mem[G("ck")] = fresh("holders"); r = i32(ex, st, "answer"); st.notes["did"] = st.notes.get("did", ()) + (("abort", v.obj[t], v.state[v.obj[t]], None, v.ck),); w = View(ex, st, c)
        for _, f in self.facts(w, v, t, ze(ex.S(st, r)), c.db): st.assume(f)
        return [(st, r)]
AB = Abort()
class Rollback(Ends):
    name = "Txn_manager::Rollback(unsigned long long)"; title = "Txn_manager::Rollback"; uses = (GT, AB)
    def setup(self, ex):
        for c in self.base(ex, dbs=(True, False)): t = self.start(ex, c); yield self.ready(ex, c, [Ptr(c.T), t], t=t.e)
    def post(self, ex, c, st, ret):
        v, out = self.result(ex, c, st); o = c.v0; run = self.running(c); k = o.obj[c.t]; r = ze(ex.S(st, ret)); out += self.refuse(c, st, v, r, 1) + v.only(o, k, "state", "end")
        return out + ([("a running one is aborted, once", z3.Implies(run, z3.And(r == 0, v.state[k] == ABORTED, v.ck == o.ck - 1, self.did(st, "abort"))))] if c.db else [("without a database: refused, still running", z3.Implies(run, z3.And(r == -1, v.state == o.state, v.ck == o.ck)))])
class Ask(Ends):
    name = "Txn_manager::Query(unsigned long long, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >&)"; title = "Txn_manager::Query"; uses = (GT, AB)
    def setup(self, ex):
        for c in self.base(ex, dbs=(True, False)): t = self.start(ex, c); q, a = Region("query", "obj"), Region("answer", "obj"); yield self.ready(ex, c, [Ptr(c.T), t, Ptr(q), Ptr(a)], t=t.e)
    def post(self, ex, c, st, ret):
        v, out = self.result(ex, c, st); o = c.v0; run = self.running(c); k = o.obj[c.t]; r = ze(ex.S(st, ret)); d = st.notes.get("did", ()); out += self.refuse(c, st, v, r, -99) + v.only(o, k, "state", "end", "upd")
        if not c.db: return out + [("without a database: refused, still running", z3.Implies(run, z3.And(r == -10, v.state == o.state, v.ck == o.ck, v.upd == o.upd)))]
        ab, an = st.notes.get("aborted", z3.BoolVal(False)), st.notes.get("answer", z3.IntVal(0)); kinds = tuple(x[0] for x in d)
        out.append(("the database is asked once, for this transaction", z3.Implies(run, z3.And(z3.BoolVal(kinds in (("query",), ("query", "abort"))), d[0][1] == k) if d else z3.BoolVal(False))))
        out += [("the database gave it up: it is aborted and rolled back", z3.Implies(z3.And(run, ab), z3.And(r == -20, v.state[k] == ABORTED, v.ck == o.ck - 1, z3.BoolVal(kinds == ("query", "abort"))))), ("otherwise it goes on running, with the database's answer", z3.Implies(z3.And(run, z3.Not(ab)), z3.And(r == an, v.state == o.state, v.ck == o.ck, z3.BoolVal(kinds == ("query",)))))]
        return out + [("only changes made count", z3.Implies(z3.And(run, z3.Not(ab), an <= -1), v.upd == o.upd) if False else z3.Implies(z3.And(run, z3.Not(ab), an < -1), v.upd == o.upd))]
class AbortAll(Txn):
    name = "Txn_manager::abort_all_running()"; title = "Txn_manager::abort_all_running"; uses = (AB,)
    def setup(self, ex):
        for c in self.base(ex):
            c.latched = False; R = c.v0; c.rk = fresh("running before", int_arr()); a, b = z3.Ints("a b"); run = lambda t: z3.And(R.dom[t], R.state[R.obj[t]] == RUNNING)
            # rk[t]: how many running transactions have an identifier below t; each holds the checkpoint latch once
            c.st.assume(forall([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= W), z3.And(c.rk[a] <= c.rk[b], z3.Implies(z3.And(a < b, run(a)), c.rk[a] + 1 <= c.rk[b]))), [z3.MultiPattern(c.rk[a], c.rk[b])])); c.st.assume(z3.And(c.rk[0] == 0, R.ck >= c.rk[W])); yield self.ready(ex, c, [Ptr(c.T)])
    def gen(self, ex, c, L):
        vw = lambda v: View(ex, v.st, c); o = c.v0
        yield "the table stays", lambda v: vw(v).same(o, "dom", "obj", "tid", "cid", "iso", "start", "upd")
        yield "table latch free", lambda v: vw(v).tl == 0
        for x in L.vars:
            if x.kind != "ptr" or x.region is not c.M: continue
            q = x.base.divmod(SLOT)
            if q is None or q[1]: continue
            at_ = lambda v, x=x, q=q: ze(q[0]) + v[x]
            yield f"{x.name} is at a transaction or the end", lambda v, g=at_: z3.And(0 <= g(v), g(v) <= W, z3.Or(g(v) == W, o.dom[g(v)]))
            yield f"before {x.name}: aborted if running, from there on untouched", lambda v, g=at_: forall([k1], z3.Implies(o.dom[k1], vw(v).state[o.obj[k1]] == z3.If(z3.And(k1 < g(v), o.state[o.obj[k1]] == RUNNING), ABORTED, o.state[o.obj[k1]])), [o.dom[k1]])
            yield f"the running ones from {x.name} on hold the checkpoint latch", lambda v, g=at_: z3.And(vw(v).ck >= c.rk[W] - c.rk[g(v)], c.rk[g(v)] >= 0)
    def post(self, ex, c, st, ret):
        v, out = self.result(ex, c, st); o = c.v0; t = fresh("t"); return out + [("nothing is left running", z3.Implies(v.dom[t], v.state[v.obj[t]] != RUNNING)), ("those that were running are aborted, the others stay", z3.Implies(v.dom[t], v.state[v.obj[t]] == z3.If(o.state[o.obj[t]] == RUNNING, ABORTED, o.state[o.obj[t]]))), ("the table stays", v.same(o, "dom", "obj", "tid", "cid", "iso", "start", "upd"))]
# ---------------------------------------------------------------- what a transaction releases (KVstore) and notes (Transaction)
KINDS = ("subject", "predicate", "object"); STORE = {"subject": "kv_sub", "predicate": "kv_pre", "object": "kv_obj"}
class IDSet_:
    """a set of identifiers: in, and the order in which its elements are visited"""
    def __init__(s, ex, st, nm):
        s.nm = nm; s.n = fresh("size of " + nm); st.assume(z3.And(s.n >= 0, s.n < 1 << 32)); s.r = Region(nm, "arr", stride=4, nbytes=Lin.of(s.n).scale(4)); s.r.pre = True; s.r.slotw[0] = 4; s.r.idset = s; s.has, s.pos = fresh("in " + nm, BOOLS), fresh("place in " + nm, int_arr())
        E = ex.arr_of(st, s.r, 0); st.assume(forall([k1], z3.Implies(z3.And(0 <= k1, k1 < s.n), z3.And(s.has[E[k1]], s.pos[E[k1]] == k1)), [E[k1]])); st.assume(forall([k1], z3.Implies(s.has[k1], z3.And(0 <= s.pos[k1], s.pos[k1] < s.n, E[s.pos[k1]] == k1)), [s.has[k1]])); s.E = E
def iset(p):
    if not isinstance(p, Ptr) or p.r is None or not hasattr(p.r, "idset"): raise Unsupported("an unknown set")
    return p.r.idset
def v_at(ex, func, st, dn, av, rt):
    c = ex.case; p, i = av[0], ex.U(st, av[1])
    if not isinstance(p, Ptr) or p.r is not c.P or not p.off.isconst(): raise Unsupported("an unknown vector of sets")
    w = {off(ex, "t_write"): c.Wset, off(ex, "t_read"): c.Rset}.get(p.off.c)
    if w is None: raise Unsupported("an unknown vector of sets")
    if not isc(i):
        out = []
        for j in range(3):
            s2 = st.clone(); s2.assume(ze(i) == j); out.append((s2, Ptr(w[j].r)))
        ex.oblige(st, z3.And(0 <= ze(i), ze(i) < 3), "one of the three sets", "safety"); return out
    ex.oblige(st, z3.BoolVal(0 <= i < 3), "one of the three sets", "safety"); return [(st, Ptr(w[i].r))]
def s_begin(ex, func, st, dn, av, rt): return [(st, Ptr(iset(av[0]).r))]
def s_end(ex, func, st, dn, av, rt): s = iset(av[0]); return [(st, Ptr(s.r, Lin.of(s.n).scale(4)))]
def s_find(ex, func, st, dn, av, rt): s = iset(av[0]); x = ze(ex.U(st, ex.load(st, func, Ty("i", 32), av[1]))); return [(st, Ptr(s.r, Lin.of(z3.If(s.has[x], s.pos[x], s.n)).scale(4)))]
def i_deref(ex, func, st, dn, av, rt): return [(st, ex.load(st, func, Ty("ptr"), av[0]))]
def i_inc(ex, func, st, dn, av, rt): p = ex.load(st, func, Ty("ptr"), av[0]); ex.store(st, func, Ty("ptr"), Ptr(p.r, p.off.add(Lin(4)), p.key), av[0]); return [(st, av[0])]
def i_cmp(ex, func, st, dn, av, rt):
    p, q = (ex.load(st, func, Ty("ptr"), x) for x in av)
    if p.r is not q.r: raise Unsupported("iterators of two sets")
    r = ze(p.off.expr()) == ze(q.off.expr()); return [(st, r if "operator==" in dn else Not(r))]
def m_rel(kind):
    def m(ex, func, st, dn, av, rt):
        c = ex.case; i = next((j for j, k in enumerate(KINDS) if isinstance(av[1], Ptr) and av[1].r is c.stores[j]), None)
        if i is None: raise Unsupported("another table of values")
        x = ze(ex.U(st, av[2])); p = ex.load(st, func, Ty("ptr"), av[3]); ex.oblige(st, z3.BoolVal(p.r is c.P), "for the transaction itself", "pre"); g = G(f"{kind}{i}"); d = st.mem[g]; ex.oblige(st, z3.Not(d[x]), f"no key of the {KINDS[i]} table is let go twice", "pre"); st.mem[g] = z3.Store(d, x, z3.BoolVal(True))
        if kind == "invalid": ex.oblige(st, Not(zb(av[4])), "values of the transaction's own entry", "pre")
        return [(st, fresh("let go", z3.BoolSort()))]
    return m
USET = r"std::unordered_set<unsigned int, std::hash<unsigned int>, std::equal_to<unsigned int>, std::allocator<unsigned int> >::"; NIT = r"std::__detail::_Node_(const_)?iterator<unsigned int, true, false>::"
SETS = [(re.compile(r"^std::vector<std::unordered_set<unsigned int.*>::operator\[\]\("), v_at), (re.compile("^" + USET + r"c?begin\("), s_begin), (re.compile("^" + USET + r"c?end\("), s_end), (re.compile("^" + USET + r"find\("), s_find), (re.compile("^" + NIT + r"operator\*\("), i_deref), (re.compile("^" + NIT + r"operator\+\+\("), i_inc), (re.compile(r"^std::__detail::operator(==|!=)\(std::__detail::_Node_iterator_base"), i_cmp),
        (re.compile(r"^KVstore::release_shared_latch\("), m_rel("shared")), (re.compile(r"^KVstore::release_exclusive_latch\("), m_rel("exclusive")), (re.compile(r"^KVstore::invalid_values\("), m_rel("invalid"))]
class LetGo(Contract):
    models = SETS + MODELS; budget = 90; opt = {"throws_ok": True}; rel = ("shared", "exclusive", "invalid")
    def setup(self, ex):
        st = State(); P, K = Region("transaction", "obj"), Region("store", "obj"); P.pre = K.pre = True; P.slotw[off(ex, "t_iso")] = 4; iso = u32(ex, st, "isolation"); P.init[off(ex, "t_iso")] = iso; stores = [Region("values by " + k, "obj") for k in KINDS]
        for k, r in zip(KINDS, stores): K.init[off(ex, STORE[k])] = Ptr(r); K.slotw[off(ex, STORE[k])] = 8
        order = [off(ex, k) for k in KINDS]; Ws, Rs = [None] * 3, [None] * 3
        for k, o in zip(KINDS, order): Ws[o] = IDSet_(ex, st, "written " + k + "s"); Rs[o] = IDSet_(ex, st, "read " + k + "s")
        sp = Region("pointer", "obj"); sp.init[0] = Ptr(P); sp.slotw[0] = 8; c0 = Case("", st, [Ptr(K), Ptr(sp)], P=P, K=K, stores=stores, Wset=Ws, Rset=Rs, iso=iso.e, o=order); none = z3.K(z3.IntSort(), z3.BoolVal(False))
        for g in self.rel:
            for i in range(3): st.mem[G(f"{g}{i}")] = none
        for nm, f in (("serializable", iso.e == 1), ("the other levels", iso.e != 1)):
            s2 = st.clone(); s2.assume(f); c = Case(nm, s2, c0.args, **{k: getattr(c0, k) for k in ("P", "K", "stores", "Wset", "Rset", "iso", "o")}); c.none = none; c.whole = {}
            for g in self.rel:
                for i in range(3):
                    if (g == "shared" and nm == "serializable") or g == self.kind: a = fresh("all", BOOLS); s2.assume(forall([k1], a[k1] == self.want(c, g, i, k1), [a[k1]])); c.whole[g, i] = a
            yield c
    def want(self, c, kind, i, x):
        w, r = c.Wset[c.o[i]], c.Rset[c.o[i]]
        if kind == "shared": return z3.And(c.iso == 1, r.has[x], z3.Not(w.has[x]))
        return w.has[x] if kind == self.kind else z3.BoolVal(False)
    def gen(self, ex, c, L):
        for g in self.rel:
            for i in range(3):
                d = lambda v, g=g, i=i: v.st.mem[G(f"{g}{i}")]; yield f"{g} {i} none yet", lambda v, d=d: d(v) == c.none
                if (g, i) in c.whole:
                    w = c.whole[g, i]; s = (c.Rset if g == "shared" else c.Wset)[c.o[i]]; yield f"{g} {i} done", lambda v, d=d, w=w: d(v) == w
                    for x in L.vars:
                        if x.kind == "ptr" and x.region is s.r: yield f"{g} {i} so far by {x.name}", lambda v, x=x, d=d, w=w, s=s: z3.And(0 <= v[x], v[x] <= s.n, forall([k1], d(v)[k1] == z3.And(w[k1], s.pos[k1] < v[x]), [d(v)[k1]]))
    def post(self, ex, c, st, ret):
        x = fresh("key"); out = []
        for g in self.rel:
            for i, k in enumerate(KINDS): out.append((f"{g} latches of {k}s: exactly those held" if g != "invalid" else f"updates of {k}s are taken back: exactly those made", st.mem[G(f"{g}{i}")][x] == self.want(c, g, i, x)))
        return out
class Release(LetGo): name = "KVstore::ReleaseAllLocks(std::shared_ptr<Transaction>) const"; title = "KVstore::ReleaseAllLocks"; kind = "exclusive"
class Invalid(LetGo): name = "KVstore::TransactionInvalid(std::shared_ptr<Transaction>)"; title = "KVstore::TransactionInvalid"; kind = "invalid"
# ---------------------------------------------------------------- the sets of a transaction
def cell(ex, p):
    if not isinstance(p, Ptr) or p.r is None or not hasattr(p.r, "ghost"): raise Unsupported("an unknown set")
    return p.r.ghost
def w_at(ex, func, st, dn, av, rt):
    c = ex.case; p, i = av[0], ex.U(st, av[1])
    if not isinstance(p, Ptr) or p.r is not c.P or not p.off.isconst(): raise Unsupported("an unknown vector of sets")
    w = {off(ex, "t_write"): c.W, off(ex, "t_read"): c.R}.get(p.off.c)
    if w is None: raise Unsupported("an unknown vector of sets")
    ex.oblige(st, z3.BoolVal(0 <= i < 3) if isc(i) else z3.And(0 <= ze(i), ze(i) < 3), "one of the three sets", "safety"); out = []
    for j in range(3):
        if isc(i) and i != j: continue
        s2 = st.clone()
        if not isc(i): s2.assume(ze(i) == j)
        out.append((s2, Ptr(w[j])))
    return out
def x_of(ex, func, st, p): return ze(ex.U(st, ex.load(st, func, Ty("i", 32), p)))
def u_insert(ex, func, st, dn, av, rt):
    g = cell(ex, av[0]); x = x_of(ex, func, st, av[1]); d = st.mem[g]; st.mem[g] = z3.Store(d, x, z3.BoolVal(True)); return [(st, AV([Ptr(av[0].r), Not(d[x])]))]
def u_erase(ex, func, st, dn, av, rt):
    g = cell(ex, av[0]); x = x_of(ex, func, st, av[1]); d = st.mem[g]; st.mem[g] = z3.Store(d, x, z3.BoolVal(False)); return [(st, IV(64, z3.If(d[x], z3.IntVal(1), z3.IntVal(0)), 0, 1))]
def u_count(ex, func, st, dn, av, rt): g = cell(ex, av[0]); x = x_of(ex, func, st, av[1]); return [(st, IV(64, z3.If(st.mem[g][x], z3.IntVal(1), z3.IntVal(0)), 0, 1))]
VSETS = r"std::vector<std::unordered_set<unsigned int.*>::"
SETOPS = [(re.compile("^" + VSETS + r"operator\[\]\("), w_at), (re.compile(r"^std::unordered_set<unsigned int.*>::insert\(unsigned int"), u_insert), (re.compile(r"^std::unordered_set<unsigned int.*>::erase\(unsigned int"), u_erase), (re.compile(r"^std::unordered_set<unsigned int.*>::count\("), u_count)]
class Sets(Contract):
    """one of the calls that note or look up an identifier: exactly the set of its kind changes, by exactly that identifier"""
    models = SETOPS; budget = 30; triple = False
    def __init__(self, fn, which, op, const=""):
        self.title = "Transaction::" + fn; self.which, self.op = which, op; self.triple = fn in ("WriteSetInsert", "WriteSetDelete"); self.name = f"Transaction::{fn}(" + ("IDTriple)" if self.triple else "unsigned int, Transaction::IDType)")
    def setup(self, ex):
        st = State(); P = Region("transaction", "obj"); P.pre = True; d = {}
        for w in "WR":
            d[w] = []
            for i in range(3): r = Region(f"{w}{i}", "obj"); r.ghost = G(f"{w}{i}"); st.mem[r.ghost] = fresh(f"{w}{i}", BOOLS); d[w].append(r)
        c = Case("", st, [Ptr(P)], P=P, **d); c.o = {k: off(ex, k) for k in KINDS}; c.g0 = {r.ghost: st.mem[r.ghost] for w in "WR" for r in d[w]}
        if self.triple:
            T = Region("triple", "obj"); T.pre = True; c.x = {}
            for k in KINDS: v = u32(ex, st, k); T.init[off(ex, "tr_" + k)] = v; T.slotw[off(ex, "tr_" + k)] = 4; c.x[k] = v.e
            c.args.append(Ptr(T))
        else: x, t = u32(ex, st, "ID"), u32(ex, st, "type"); st.assume(t.e < 3); c.args += [x, t]; c.x, c.t = x.e, t.e
        yield c
    def post(self, ex, c, st, ret):
        out = []
        for w in "WR":
            for k in KINDS:
                i = c.o[k]; g = G(f"{w}{i}"); old, new = c.g0[g], st.mem[g]
                if w != self.which or self.op == "find": out.append((f"the {k}s {'written' if w == 'W' else 'read'} stay", new == old)); continue
                here = True if self.triple else c.t == i; x = c.x[k] if self.triple else c.x; out.append((f"the {k}s: exactly that identifier is {'noted' if self.op == 'insert' else 'dropped'}", new == z3.If(z3.BoolVal(True) if here is True else here, z3.Store(old, x, z3.BoolVal(self.op == "insert")), old)))
        if self.op == "find": out.append(("found exactly when noted", zb(ret) == z3.And([z3.Implies(c.t == c.o[k], c.g0[G(f"{self.which}{c.o[k]}")][c.x]) for k in KINDS])))
        return out
SETF = [Sets("ReadSetInsert", "R", "insert"), Sets("ReadSetDelete", "R", "erase"), Sets("ReadSetFind", "R", "find"), Sets("WriteSetInsert", "W", "insert"), Sets("WriteSetDelete", "W", "erase"), Sets("WriteSetFind", "W", "find")]
# ---------------------------------------------------------------- a new transaction
def v_push(ex, func, st, dn, av, rt):
    c = ex.case; p = av[0]
    if not isinstance(p, Ptr) or p.r is not c.P or not p.off.isconst(): raise Unsupported("an unknown vector of sets")
    g = G(f"n{p.off.c}")
    if g not in st.mem: raise Unsupported("an unknown vector of sets")
    st.mem[g] = st.mem[g] + 1; return [(st, None)]
def v_new(ex, func, st, dn, av, rt):
    p = av[0]
    if isinstance(p, Ptr) and p.r is ex.case.P and p.off.isconst(): st.mem[G(f"n{p.off.c}")] = z3.IntVal(0)
    return [(st, None)]
class Make(Contract):
    name = "Transaction::Transaction(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >, unsigned long long, unsigned long long, IsolationLevelType)"; title = "Transaction::Transaction"; budget = 30
    models = [(re.compile("^" + VSETS + r"vector\(\)"), v_new), (re.compile("^" + VSETS + r"push_back\("), v_push), (re.compile(r"^std::unordered_set<unsigned int.*>::~?unordered_set\(\)|^std::vector<std::.*basic_string.*>::~?vector\(\)|^std::.*basic_string<.*>::(~?basic_string\(\)|operator=\()"), m_none)]
    def setup(self, ex):
        st = State(); P, S = Region("transaction", "obj"), Region("name", "obj"); P.pre = True
        for f, w in FIELDS.items(): P.slotw[off(ex, "t_" + f)] = w
        for f in ("t_read", "t_write"): st.mem[G(f"n{off(ex, f)}")] = z3.IntVal(-1)
        a, t, i = u64(ex, st, "time"), u64(ex, st, "TID"), u32(ex, st, "isolation"); yield Case("", st, [Ptr(P), Ptr(S), a, t, i], P=P, a=a.e, t=t.e, i=i.e)
    def gen(self, ex, c, L):
        n = lambda v, f: v.st.mem[G(f"n{off(ex, f)}")]
        for f in ("t_read", "t_write"):
            for k in (0, 3): yield f"{f} has {k} sets", lambda v, f=f, k=k: n(v, f) == k
            yield f"{f} has a set for each round", lambda v, f=f: z3.And(n(v, f) == v["it"], v["it"] <= 3)
        for x in L.vars:
            if x.kind == "int": yield f"{x.name} counts the rounds", lambda v, x=x: z3.And(v[x] == v["it"], v["it"] <= 3)
    def post(self, ex, c, st, ret):
        g = lambda f: ze(ex.U(st, slot(ex, st, Ptr(c.P), off(ex, "t_" + f)))); n = lambda f: st.mem[G(f"n{off(ex, f)}")]
        return [("it waits, under its identifier, from its time on", z3.And(g("tid") == c.t, g("state") == WAITING, g("start") == c.a)), ("its level is the one asked for, or snapshot", g("iso") == z3.If(z3.And(c.i >= 1, c.i <= 3), c.i, 2)), ("it has made no change", ze(ex.S(st, slot(ex, st, Ptr(c.P), off(ex, "t_upd")))) == 0), ("three sets of what it read, three of what it wrote", z3.And(n("t_read") == 3, n("t_write") == 3))]
FUNCS = [NextID(), CommitID(), GT, Public(), AT, Begin(), Commit(), AB, Rollback(), Ask(), AbortAll(), Release(), Invalid(), Make()] + SETF
HARNESS = {"src": "C06.cpp", "tus": [], "secs": 20}
ASSUMPTIONS = []
BOUNDED = []
