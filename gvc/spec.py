"""Contracts.  A contract names a real function by its demangled signature, builds its symbolic
pre-state, states its postconditions, and can offer candidate loop invariants."""
import z3, time, traceback
from smt import *
from vals import *
from ir import *
import symex
from symex import Exec, PathEnd

q1, q2, q3, q4 = z3.Ints("q1 q2 q3 q4")
def forall(vs, body, pats=None):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    if isinstance(body, bool): return body
    return z3.ForAll(list(vs), body, patterns=pats) if pats else z3.ForAll(list(vs), body)
def exists(vs, body):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    if isinstance(body, bool): return body
    return z3.Exists(list(vs), body)

class Case:
    def __init__(self, label, st, args, **kw):
        self.label, self.st, self.args = label, st, args
        self.__dict__.update(kw)

class Contract:
    name = None            # demangled signature
    tus = ()               # translation units that hold the function and what it inlines
    bv = False             # exact bit-vector arithmetic
    safety = True          # memory-safety obligations (bounds, null, use after free)
    opt = {}
    unroll = {}            # (function, loop index) -> bound proved by an obligation
    uses = ()              # contracts assumed at call sites (proved on their own)
    models = ()            # extra (regex, fn) models, before the library ones
    budget = 150
    title = ""
    expect = True          # accepted on the unchanged tree: anything else is reported
    def setup(self, ex): raise NotImplementedError
    def post(self, ex, case, st, ret): return []
    def gen(self, ex, case, L): return []
    def apply(self, ex, func, st, av, rt): raise Unsupported("no call rule for " + self.name)
    def key(self): return self.title or self.name

class Result:
    def __init__(self): self.func = ""; self.obls = []; self.status = "proved"; self.why = ""; self.time = 0; self.paths = 0; self.loops = 0; self.inv = 0; self.modelled = []; self.inlined = []; self.contracts = []; self.vac = []; self.cases = 0; self.backends = {}

def mangled(ex, name):
    if name in ex.rev: return ex.rev[name]
    raise Unsupported("function not found in the current source: " + name)

def verify(c, mods, models, budget=None, verbose=False):
    res = Result(); res.func = c.key(); t0 = time.time()
    symex.fp_numbers(c.opt.get("fp") == "numbers")
    try:
        ex0 = None
        probe = Exec(mods, list(c.models) + list(models), bv=c.bv)
        ncase = 0
        for case in c.setup(probe):
            ncase += 1
            ex = probe
            ex.obls = []; ex.loopcands = [lambda L, case=case: c.gen(ex, case, L)]
            ex.contracts = {u.name: u for u in c.uses}
            ex.opt = dict(c.opt); ex.opt["verbose"] = verbose
            __import__('smt').USE_INST = bool(c.opt.get('inst'))
            ex.safety = c.safety; ex.unroll = dict(c.unroll)
            ex.cur = c.key() + (f" [{case.label}]" if case.label else "")
            ex.deadline = t0 + (budget or c.budget)
            ex.case = case
            if hasattr(c, "extra_bounds"): ex.extra_bounds = lambda L, case=case: c.extra_bounds(ex, case, L)
            # vacuity: the precondition must be satisfiable
            if not feasible(case.st.pc, 4000): raise Unsupported("vacuous: precondition unsatisfiable")
            r, _ = __import__("smt")._run([zb(x) for x in case.st.pc if not isinstance(x, bool)], 3000)
            if r == z3.unsat: raise Unsupported("vacuous: precondition unsatisfiable")
            res.vac.append(f"{case.label or 'entry'}: precondition {'sat' if r == z3.sat else 'quantifier-free part sat'}")
            f = ex.find(mangled(ex, c.name))
            if f is None: raise Unsupported("no body for " + c.name)
            st_in = case.st.clone()
            case.st0 = case.st
            outs = ex.run_function(st_in, f, case.args)
            live = 0
            for st, ret in outs:
                if not feasible(st.pc): continue
                rr, _ = __import__("smt")._run([zb(x) for x in st.pc if not isinstance(x, bool)] + [z3.BoolVal(False) for x in st.pc if x is False], 1500)
                if rr == z3.unsat: continue
                live += 1
                for nm, goal in c.post(ex, case, st, ret):
                    ex.oblige(st, goal, "postcondition: " + nm, "post", line=None)
            if live == 0 and not getattr(case, "no_exit_ok", False): raise Unsupported("vacuous: no feasible exit")
            res.paths += live; res.obls += ex.obls; res.loops += ex.loops_seen; res.inv += ex.inv_kept; ex.loops_seen = ex.inv_kept = 0
            res.cases += 1
        if ncase == 0: raise Unsupported("no cases")
        res.modelled = sorted(probe.modelled); res.inlined = sorted(probe.inlined); res.contracts = [u.name for u in c.uses]
    except Unsupported as e:
        res.status = "undecided"; res.why = str(e)
    except z3.Z3Exception as e:
        res.status = "undecided"; res.why = "z3: " + str(e)[:200]
        if verbose: traceback.print_exc()
    except RecursionError:
        res.status = "undecided"; res.why = "recursion"
    except Exception as e:
        res.status = "undecided"; res.why = "internal: " + repr(e)[:300] + " " + traceback.format_exc().strip().split("\n")[-3][:200]
        if verbose: traceback.print_exc()
    if res.status == "undecided" and verbose: print("UNDECIDED:", res.why)
    res.time = time.time() - t0
    bad = [o for o in res.obls if not o.res.ok]
    if bad and res.status == "proved":
        res.status = "refuted" if any(o.res.status == "refuted" for o in bad) else "undecided"
        res.why = "; ".join(f"{o.name} (line {o.line}): {o.res.status}" for o in bad[:4])
    elif any(o.res.status == "refuted" for o in bad):
        res.why += " | refuted before: " + "; ".join(f"{o.name} (line {o.line})" for o in bad[:4])
    if not res.obls and res.status == "proved": res.status = "undecided"; res.why = "no obligations generated"
    # make picklable
    out = []
    for o in res.obls:
        m = None
        if o.res.model is not None:
            try: m = model_str(o.res.model)
            except Exception: m = None
        out.append({"name": o.name, "kind": o.kind, "func": o.func, "line": o.line, "status": o.res.status, "backend": o.res.backend, "secs": round(o.secs, 3), "model": m})
    res.obls = out
    res.stats = dict(__import__("smt").STATS)
    return res

def model_str(m):
    out = {}
    for d in m.decls():
        if len(out) > 60: break
        s = str(m[d])
        if len(s) < 300: out[d.name()] = s
    return out

# ---------------------------------------------------------------- building blocks
class Arr:
    """view of an array reached through a pointer: a(k) is the k-th element at state st"""
    def __init__(self, ex, st, p, o=0):
        self.r = p.r; self.o = o
        q = p.off.divmod(p.r.stride or 4)
        if q is None: raise Unsupported("array view: unaligned")
        self.base = q[0]; self.o = o + q[1]
        self.a = ex.arr_of(st, p.r, self.o)
    def __call__(self, k): return z3.Select(self.a, ze(add(self.base, k)) )

def u32(ex, st, nm): return ex.fresh_int(32, nm, st=st)
def i32(ex, st, nm): return ex.fresh_int(32, nm, signed=True, st=st)
def u64(ex, st, nm, bound=None):
    v = ex.fresh_int(64, nm, st=st)
    if bound is not None: st.assume(v.e <= bound); v.hi = bound
    return v
def array(ex, st, nm, n, width=4, signed=False):
    """fresh array region of n elements; returns pointer"""
    r = Region(nm, "arr", stride=width, nbytes=Lin.of(n).scale(width))
    r.slotw[0] = width
    if signed: r.signed.add(0)
    ex.arr_of(st, r, 0)
    r.pre = True
    return Ptr(r)
def arr0(ex, st, p, o=0): return ex.arr_of(st, p.r, o)
def ascending(a, n, strict=True):
    return z3.ForAll([q1, q2], z3.Implies(z3.And(0 <= q1, q1 < q2, q2 < ze(n)), (a[q1] < a[q2]) if strict else (a[q1] <= a[q2])))
def ranged(a, n, w=32):
    return z3.ForAll([q1], z3.Implies(z3.And(0 <= q1, q1 < ze(n)), z3.And(a[q1] >= 0, a[q1] < (1 << w))))

def vector(ex, st, nm, n, width=4, fields=None):
    """a std::vector object (3 pointers) with n elements; returns (pointer to the object, element region)"""
    r = Region(nm + ".data", "arr", stride=width, nbytes=Lin.of(n).scale(width)); r.pre = True; r.isvec = True
    if fields is None:
        r.slotw[0] = width; ex.arr_of(st, r, 0)
    o = Region(nm, "obj"); o.pre = True
    set_vector(o, 0, r, n, width)
    return Ptr(o), r
def set_vector(o, off, r, n, width):
    o.init[off] = Ptr(r); o.init[off + 8] = Ptr(r, Lin.of(n).scale(width)); o.init[off + 16] = Ptr(r, Lin.of(n).scale(width))
    for k in (0, 8, 16): o.slotw[off + k] = 8
    r.nbytes = None      # bounds of a vector follow its end pointer
    r.vecobj = (o, off)
def vec_size(ex, st, p, width):
    """(region, size expr) of the vector at p"""
    b = slot(ex, st, p, 0); e = slot(ex, st, p, 8)
    if b.r is None: return None, 0
    q = e.off.sub(b.off).divmod(width)
    return b.r, q[0]
def slot(ex, st, p, off):
    o = p.off.c + off
    k = (p.r.id, o)
    if k in st.mem: return st.mem[k]
    return p.r.init.get(o)

def vec_objs(L):
    """(object pointer offset, element region) of every vector whose elements the loop changes"""
    seen = []
    for k, r, a0, a in L.arrs:
        if r is not None and getattr(r, "vecobj", None) is not None and r not in seen: seen.append(r)
    return [(r.vecobj, r) for r in seen]
def vsize(v, o, r):
    """number of elements of vector object o=(region, offset) at view v"""
    st = v.st; w = r.stride
    def gv(off): return st.mem.get((o[0].id, off)) or o[0].init.get(off)
    # during header evaluation the end pointer is a loop variable; memory holds it
    b, e = gv(o[1]), gv(o[1] + 8)
    if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.r is not e.r: raise KeyError("vector")
    return e.off.sub(b.off).divmod(w)[0]

def record(ex, st, nm, fields):
    """an object with integer fields: [(name, offset, bytes)] -> (pointer, {name: value})"""
    o = Region(nm, "obj"); o.pre = True; vals = {}
    for f, off, w in fields:
        v = ex.fresh_int(8 * w, f"{nm}.{f}", st=st); o.init[off] = v; o.slotw[off] = w; vals[f] = v.e
    return Ptr(o), vals
