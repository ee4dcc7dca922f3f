"""Instantiation of universally quantified hypotheses by matching array indices modulo linear arithmetic.
Everything asserted is a consequence of the input (skolemised), so an unsat answer is a proof."""
import z3, time

def poly(e):
    """linear form {id: (atom, coef)}, const of an Int term"""
    e = z3.simplify(e, som=True)
    c = 0; t = {}
    for x in (e.children() if z3.is_add(e) else [e]):
        if z3.is_int_value(x): c += x.as_long(); continue
        k, a = 1, x
        if z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)): k, a = x.arg(0).as_long(), x.arg(1)
        i = a.get_id()
        t[i] = (a, t[i][1] + k) if i in t else (a, k)
    return t, c
def term(t, c):
    r = None
    for a, k in t.values():
        if k == 0: continue
        x = a if k == 1 else z3.IntVal(k) * a
        r = x if r is None else r + x
    if r is None: return z3.IntVal(c)
    return r if c == 0 else r + c

def walk(e, f, seen):
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): f(x); continue
        f(x); st.extend(x.children())

class Q:
    """one universal formula: n variables, body over fresh constants vs, index patterns per variable"""
    def __init__(self, f):
        n = f.num_vars(); self.f = f
        self.vs = [z3.FreshConst(f.var_sort(i), "iv") for i in range(n)]
        self.body = z3.substitute_vars(f.body(), *reversed(self.vs))
        self.ids = {v.get_id(): i for i, v in enumerate(self.vs)}
        self.ints = all(v.sort() == z3.IntSort() for v in self.vs)
        self.pats = [[] for _ in self.vs]; self.done = set()
        def see(x):
            if z3.is_app(x) and (x.decl().kind() == z3.Z3_OP_SELECT or x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0):
                for ix in (list(x.children())[1:] if x.decl().kind() == z3.Z3_OP_SELECT else x.children()):
                    if ix.sort() != z3.IntSort(): continue
                    t, c = poly(ix)
                    hit = [(i, k) for i, (a, k) in t.items() if i in self.ids]
                    if len(hit) != 1: continue
                    if any(i not in self.ids and self.mentions(a) for i, (a, k) in t.items()): continue
                    i, k = hit[0]
                    rest = {j: v for j, v in t.items() if j != i}
                    p = (k, rest, c)
                    self.pats[self.ids[i]].append(p)
        walk(self.body, see, set())
    def mentions(self, e):
        r = []
        walk(e, lambda x: r.append(1) if x.get_id() in self.ids else None, set()); return bool(r)
    def cands(self, grounds):
        out = []
        for v, pl in zip(self.vs, self.pats):
            c = {}
            seenp = set()
            for k, rest, c0 in pl:
                key = (k, tuple(sorted((i, x[1]) for i, x in rest.items())), c0)
                if key in seenp: continue
                seenp.add(key)
                for gt, gc in grounds:
                    d = dict(gt); cc = gc - c0
                    for i, (a, kk) in rest.items():
                        d[i] = (a, (d[i][1] if i in d else 0) - kk)
                    d = {i: x for i, x in d.items() if x[1]}
                    if cc % k or any(x[1] % k for x in d.values()): continue
                    d = {i: (a, x // k) for i, (a, x) in d.items()}
                    tm = term(d, cc // k)
                    c[tm.sexpr()] = tm
            out.append(list(c.values()))
        return out

def canon(fs):
    """replace selects at a constant index that are asserted equal to another term by that term (index arithmetic then lines up)"""
    for _ in range(3):
        sub = []; used = set()
        for f in fs:
            if not z3.is_eq(f): continue
            for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and z3.is_int_value(x.arg(1)) and z3.is_const(x.arg(0)) and x.get_id() not in used and not contains(y, x) and x.sort() == z3.IntSort():
                    if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_SELECT and str(y) > str(x): continue
                    used.add(x.get_id()); sub.append((x, y)); break
        if not sub: return fs
        new = []
        for f in fs:
            h = z3.substitute(f, *sub)
            new.append(z3.simplify(h) if not h.eq(f) else f)
        keep = [x == y for x, y in sub]
        fs = [f for f in new if not z3.is_true(f)] + keep
        if all(a.eq(b) for a, b in zip(new, fs)): break
    return fs
def contains(e, x):
    r = []
    walk(e, lambda t: r.append(1) if t.get_id() == x.get_id() else None, set()); return bool(r)

def has_q(e):
    r = []
    walk(e, lambda x: r.append(1) if z3.is_quantifier(x) else None, set()); return bool(r)

def prove_inst(asserts, timeout=2500):
    """the goal is the last assertion; first with one quantified hypothesis at a time, then with all of them"""
    *hyp, goal = asserts
    g = [h for h in hyp if not has_q(h)]; qh = [h for h in hyp if has_q(h)]
    if len(qh) > 1:
        for h in reversed(qh):
            if inst_run(g + [h, goal], timeout=500, cap=400): return True
    return inst_run(asserts, timeout)

def inst_run(asserts, timeout=2500, rounds=3, cap=2500):
    t0 = time.time()
    g = z3.Goal()
    for a in asserts: g.add(a)
    try: g = z3.Tactic("snf")(g)[0]
    except z3.Z3Exception: return False
    fs = [g[i] for i in range(g.size())]
    fs = canon(fs)
    ground = []; work = list(fs); qs = []; qseen = {}
    made = 0
    def strip(f, pol=True):
        """replace positive universals by placeholders: (formula without them)"""
        # returns list of quantifiers with a context: handled by guarding with a fresh boolean
        return f
    guards = []
    def quants(f):
        l = []
        walk(f, lambda x: l.append(x) if z3.is_quantifier(x) else None, set())
        return l
    def add_formula(f):
        l = quants(f)
        if not l: ground.append(f); return
        sub = []
        for q in l:
            if not q.is_forall(): return        # not in skolem form: drop (weakening)
            b = z3.FreshBool("qb") if not f.eq(q) else None
            key = q.get_id()
            if b is not None: sub.append((q, b))
            qq = Q(q)
            if not qq.ints: 
                continue
            qs.append((qq, b))
        if f.decl() is not None if z3.is_app(f) else False: pass
        if not z3.is_quantifier(f):
            # universals only occur positively after snf, so a fresh guard for each is implied-by only: guard -> instances
            ground.append(z3.substitute(f, *sub))
    for f in fs: add_formula(f)
    dn = 0
    for rnd in range(rounds):
        grounds = {}
        seen = set()
        def see(x):
            if z3.is_app(x) and (x.decl().kind() == z3.Z3_OP_SELECT or x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0):
                for ix in (list(x.children())[1:] if x.decl().kind() == z3.Z3_OP_SELECT else x.children()):
                    if ix.sort() == z3.IntSort():
                        t, c = poly(ix); grounds.setdefault((tuple(sorted((i, k) for i, (a, k) in t.items())), c), (t, c))
            if z3.is_store(x):
                t, c = poly(x.arg(1)); grounds.setdefault((tuple(sorted((i, k) for i, (a, k) in t.items())), c), (t, c))
        for f in ground: walk(f, see, seen)
        gl = list(grounds.values()); new = []
        for qq, b in qs:
            cs = qq.cands(gl)
            if any(not c for c in cs): continue
            import itertools
            tot = 1
            for c in cs: tot *= len(c)
            if tot > 600: continue
            for tup in itertools.product(*cs):
                key = tuple(x.sexpr() for x in tup)
                if key in qq.done: continue
                qq.done.add(key)
                inst = z3.substitute(qq.body, *zip(qq.vs, tup))
                new.append(inst if b is None else z3.Implies(b, inst)); made += 1
                if made > cap: break
            if made > cap: break
        if not new: break
        n0 = len(qs)
        for f in new:
            # nested quantifiers inside instances
            add_formula(f)
        s = z3.Solver(); s.set("timeout", int(min(timeout, 1500 if rnd + 1 < rounds else timeout)))
        for f in ground: s.add(f)
        if s.check() == z3.unsat: return True
        if made > cap or time.time() - t0 > timeout / 1000 * 2: break
    return False
