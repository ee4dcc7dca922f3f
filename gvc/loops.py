"""Loop rule: havoc what the body changes, infer an inductive invariant (Houdini over candidate
templates plus the contract's own candidates), continue behind the loop under the invariant."""
import z3, time, re
import smt, small
from smt import *
from vals import *
from ir import *
import symex
from symex import Outcome, POISON

class Var:
    __slots__ = ("name", "kind", "key", "phi", "w", "signed", "region", "stride", "base", "hdr", "init", "diff", "fkey", "ty", "phi_now")
    def __init__(self, name): self.name = name; self.diff = None; self.signed = False; self.region = None; self.hdr = None; self.init = None; self.ty = None

class View:
    """candidate invariants are evaluated against a View: loop variables and memory at one program point"""
    def __init__(self, L, st, vals): self.L, self.st, self.vals, self.ex = L, st, vals, L.ex
    def __getitem__(self, v): return self.vals[v if isinstance(v, str) else v.name]
    def arr(self, r, o=0): return self.ex.arr_of(self.st, r, o)

def is_vec_end(x):
    """the variable is the end pointer of a vector"""
    return x.kind == "ptr" and x.key is not None and x.region is not None and getattr(x.region, "vecobj", None) is not None and x.key[0] == x.region.vecobj[0].id and x.key[1] == x.region.vecobj[1] + 8
class Loop:
    def nested(self, func): return any(self.header in func.loops[h2] and h2 != self.header for h2 in func.loops)
def norm(n):
    return re.sub(r"!\d+", "", n)

def maxfresh(e):
    """largest fresh-name counter in e"""
    m = 0; seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if "!" in n:
                try: m = max(m, int(n.rsplit("!", 1)[1]))
                except ValueError: pass
        elif z3.is_quantifier(x): st.append(x.body()); continue
        st.extend(x.children())
    return m

def signed_hint(func, h, name):
    names = {name}
    for b in func.loops[h]:
        for i in func.blocks[b]:
            if i.op == "sext" and i.a[1] == ("l", name): return True
            if i.op == "icmp" and i.a[0][0] == "s" and (i.a[2] == ("l", name) or i.a[3] == ("l", name)): return True
    return False

def phi_incoming(ex, func, env, h, prev):
    out = []
    for ins in func.blocks[h]:
        if ins.op != "phi": break
        for v, pb in ins.a[1]:
            if pb == prev: out.append((ins.res, ins.a[0], ex.val(func, env, ins.a[0], v))); break
        else: raise Unsupported("phi without incoming edge")
    return out

def stride_of(r):
    return r.stride or 1

def poly(kind, v):
    pass

def make_var(ex, func, h, name, ty, v, phi=None, key=None, backs=()):
    """describe how a loop-carried value is generalised"""
    x = Var(name); x.phi = phi; x.key = key; x.ty = ty
    cand = [v] + list(backs)
    if any(c is POISON for c in cand): x.kind = "poison"; return x
    if all(isinstance(c, (bool, z3.BoolRef)) for c in cand): x.kind = "bool"; return x
    if all(isinstance(c, (IV,)) for c in cand):
        x.kind = "int"; x.w = v.w
        if any(c.w != v.w for c in cand): x.kind = "poison"; return x
        x.signed = (phi is not None and signed_hint(func, h, phi)) or any(isc(c.e) and ex.S(None, c) < 0 and v.w < 64 for c in cand if isc(c.e)) or any(c.lo is not None and c.lo < 0 and c.lo >= -(1 << (v.w - 1)) and c.hi < (1 << (v.w-1)) for c in cand)
        if key is not None:
            x.signed = x.signed or key[1] in getattr(key[2] if len(key) > 2 else None, "signed", ())
        return x
    if all(isinstance(c, BV) for c in cand): x.kind = "bv"; x.w = v.w; return x
    if all(isinstance(c, FV) for c in cand): x.kind = "fp"; x.w = v.k; return x
    if all(isinstance(c, Ptr) for c in cand):
        rs = {c.r for c in cand if c.r is not None}
        if len(rs) == 1:
            r = rs.pop(); x.region = r
            if r.kind == "fam":
                offs = {c.off.c for c in cand if c.r is not None}
                if len(offs) == 1 and all(c.off.isconst() for c in cand):
                    x.kind = "fam"; x.base = offs.pop(); return x
            elif all(c.r is r for c in cand):
                x.stride = stride_of(r); x.base = v.off; x.kind = "ptr"
                for c in cand:
                    q = c.off.sub(v.off).divmod(x.stride)
                    if q is None or q[1] != 0: x.kind = "poison"
                return x
        elif not rs and all(c.r is None for c in cand):
            x.kind = "null"; return x
    x.kind = "poison"; return x

def var_fresh(ex, st, x):
    if x.kind == "int":
        v = ex.fresh_int(x.w, x.name, x.signed, st); x.hdr = v.e; return v
    if x.kind == "bool":
        b = fresh(x.name, z3.BoolSort()); x.hdr = b; return b
    if x.kind == "bv":
        b = BV(x.w, fresh(x.name, z3.BitVecSort(x.w))); x.hdr = b.e; return b
    if x.kind == "fp":
        b = FV(x.w, fresh(x.name, symex.FPS[x.w])); x.hdr = b.e; return b
    if x.kind == "ptr":
        k = fresh(x.name + ".k"); x.hdr = k
        return Ptr(x.region, x.base.add(Lin.of(k).scale(x.stride)))
    if x.kind == "fam":
        k = fresh(x.name + ".key"); x.hdr = k; st.assume(k >= 0)
        return Ptr(x.region, Lin(x.base), k)
    if x.kind == "null": return NULL
    return POISON

def var_val(ex, st, x, v):
    """canonical expression of value v for variable x"""
    if x.kind == "int": return (ex.S if x.signed else ex.U)(st, v)
    if x.kind in ("bool",): return v
    if x.kind in ("bv", "fp"): return v.e
    if x.kind == "ptr":
        q = v.off.sub(x.base).divmod(x.stride)
        return q[0]
    if x.kind == "fam": return 0 if v.r is None else v.key
    return None

def do_loop(ex, func, st0, env0, h, prev):
    ex.check_deadline()
    body = func.loops[h]
    inits = phi_incoming(ex, func, env0, h, prev)
    L = Loop(); L.ex = ex; L.func = func; L.header = h; L.st0 = st0; L.env0 = env0
    L.index = func.loop_order.index(h); L.fname = ex.demangle(func.name)
    regmax = Region.n
    ukey = (L.fname, L.index)
    n_unroll = ex.unroll.get(ukey)
    if n_unroll is not None: return do_unroll(ex, func, st0, env0, h, prev, body, n_unroll)
    M = {}           # mem key -> list of back values
    phiback = {n: [] for n, _, _ in inits}
    L.base = smt._fresh[0]
    regs = ex_regs(ex, st0)
    def header():
        hs = st0.clone(); henv = dict(env0); vs = []
        hs.writes = []
        for n, ty, v in inits:
            x = make_var(ex, func, h, n, ty, v, phi=n, backs=phiback[n]); henv[n] = var_fresh(ex, hs, x); vs.append((x, v))
        arrs = []
        for k, bl in M.items():
            cur = st0.mem.get(k)
            r = ex.regbyid.get(k[0])
            if k[0] != "ghost" and ((cur is None and r is not None and r.kind != "obj") or isinstance(cur, z3.ArrayRef)):
                a0 = cur if cur is not None else ex.arr_of(st0, r, k[1])
                a = fresh(f"{r.name}@{k[1]}", a0.sort()); hs.mem[k] = a; arrs.append((k, r, a0, a)); continue
            if isinstance(cur, z3.ExprRef) and not isinstance(cur, z3.BoolRef) or k[0] == "ghost":
                g = fresh("ghost", ze(cur).sort()); hs.mem[k] = g; arrs.append((k, None, ze(cur), g)); continue
            if cur is None:
                if r is None: continue
                cur = r.init.get(k[1])
                if cur is None:
                    hs.mem[k] = POISON; continue
            x = make_var(ex, func, h, f"{r.name if r else k[0]}+{k[1]}", None, cur, key=(k[0], k[1], r), backs=bl)
            hs.mem[k] = var_fresh(ex, hs, x)
            if x.kind != "poison": vs.append((x, cur))
        it = fresh("it"); hs.assume(it >= 0)
        L.vars = [x for x, _ in vs if x.kind not in ("poison", "null")]; L.arrs = arrs; L.it = it
        L.initvals = {}
        for x, v in vs:
            if x.kind in ("poison", "null"): continue
            x.init = var_val(ex, st0, x, v); L.initvals[x.name] = x.init
        L.initvals["it"] = 0
        for x in L.vars: x.phi_now = henv.get(x.phi) if x.phi is not None else None
        L.idx = [x for x in L.vars if x.kind in ("int", "ptr") and not is_vec_end(x)]
        L.hdrvals = {x.name: x.hdr for x in L.vars}; L.hdrvals["it"] = it
        return hs, henv
    def back_view(o):
        vals = {}
        pv = {n: v for n, _, v in phi_incoming(ex, func, o.env, h, o.prev)}
        for x in L.vars:
            if x.phi is not None: v = pv[x.phi]
            else:
                v = o.st.mem.get((x.key[0], x.key[1]))
            vals[x.name] = var_val(ex, o.st, x, v)
        vals["it"] = L.it + 1
        return View(L, o.st, vals)
    # enclosing loops' index variables are visible to candidates as L.outer
    L.outer = []
    for L2 in ex.loopstack:
        for x in getattr(L2, "vars", ()):
            if x.kind not in ("int", "ptr"): continue
            if x.phi is not None: v = env0.get(x.phi) if L2.func is func else x.phi_now
            else: v = st0.mem.get((x.key[0], x.key[1]))
            if v is None or v is POISON or any(n == x.phi for n, _, _ in inits) and L2.func is func or not compatible(x, v): continue
            if x.key is not None and is_vec_end(x): continue
            L.outer.append((x.name, var_val(ex, st0, x, v)))
    # ---- what changes
    ex.dry += 1
    savelog = ex.icmplog
    outer_modset = ex.modset
    try:
        ex.modset = True
        for rnd in range(8):
            hs, henv = header()
            ex.icmplog = []
            ex.loopstack.append(L)
            try: outs = ex.run_blocks(func, hs, henv, h, None, h, body)
            finally: ex.loopstack.pop()
            log = ex.icmplog
            changed = False
            backs = [o for o in outs if o.k == "back"]
            for o in backs:
                for n, _, v in phi_incoming(ex, func, o.env, h, o.prev):
                    x = next((y for y in L.vars if y.phi == n), None)
                    if not compatible(x, v): phiback[n].append(v); changed = True
                for k, v in o.st.mem.items():
                    if k[0] != "ghost" and (k[0] not in ex.regbyid or (k[0] > regmax and not ex.regbyid[k[0]].pre)): continue
                    if hs.mem.get(k) is v: continue
                    if k not in M: M[k] = [v]; changed = True
                    else:
                        x = next((y for y in L.vars if y.key is not None and y.key[:2] == k), None)
                        if hs.mem.get(k) is POISON: continue
                        if not isinstance(v, z3.ArrayRef) and k[0] != "ghost" and not compatible(x, v): M[k].append(v); changed = True
                if any(o.st.freed.get(r) != st0.freed.get(r) for r in o.st.freed if r <= regmax and r in ex.regbyid and ex.regbyid[r].kind != "fam"):
                    raise Unsupported("object freed inside a loop")
            if not changed: break
        else: raise Unsupported("loop state does not stabilise")
        ex.modset = outer_modset
        if ex.modset:       # an enclosing loop is only collecting what its body changes
            if savelog is not None: savelog.extend(log)
            ex.dry -= 1; outs = [o for o in outs if o.k != "back"]; ex.dry += 1
            return outs
        # ---- candidates
        cands = candidates(ex, L, hs, backs, back_view, log)
        skey = ukey if L.nested(func) else None
        if skey in ex.survivors:
            keep = ex.survivors[skey]; cands = [c for c in cands if norm(c[0]) in keep]
        L.cands = cands
        iv = View(L, st0, L.initvals)
        alive = []
        span = getattr(ex.case, "span", None) if hasattr(ex, "case") else None
        if span:
            g0 = []
            for nm, fn, strong in cands:
                try: g0.append((nm, fn(iv)))
                except KeyError: pass
            gone = small.Filter(st0.pc, ex.case.small, span).kill([(n, g) for n, g in g0 if g is not None])
            cands = [c for c in cands if c[0] not in gone]
        for nm, fn, strong in cands:
            try: g = fn(iv)
            except KeyError: continue
            if g is None: continue
            if isinstance(g, bool) and g: alive.append((nm, fn, strong)); continue
            if quick(ex, st0.pc, g, strong, None, 3000 if span else None): alive.append((nm, fn, strong))
        rounds = 0; inner = any(h2 != h and h2 in body for h2 in func.loop_order)
        for k2 in [(L.fname, func.loop_order.index(h2)) for h2 in func.loop_order if h2 != h and h2 in body]: ex.survivors.pop(k2, None)
        while True:
            rounds += 1
            ex.check_deadline()
            save_new = ex.newsurv; ex.newsurv = {}
            hs, henv = header()
            hv = View(L, hs, L.hdrvals)
            own = {}
            for nm, fn, strong in alive:
                g = fn(hv)
                if g is not None: hs.assume(g); own[nm] = g
            ex.loopstack.append(L)
            try: outs = ex.run_blocks(func, hs, henv, h, None, h, body)
            finally: ex.loopstack.pop()
            ex.survivors.update(ex.newsurv); ex.newsurv = save_new
            backs = [o for o in outs if o.k == "back"]
            dead = set(); proofs = []
            for o in backs:
                bv = back_view(o)
                if not feasible(o.st.pc): continue
                todo = [(nm, fn(bv), strong) for nm, fn, strong in alive if nm not in dead]
                if span:
                    dead |= small.Filter(o.st.pc, ex.case.small + [(x.hdr, span[0], span[1]) for x in L.idx], span).kill([(nm, g) for nm, g, _ in todo if g is not None])
                    todo = [t for t in todo if t[0] not in dead]
                for nm, g, strong in todo:
                    if g is None: continue
                    t = time.time()
                    if not quick(ex, o.st.pc, g, strong, own.get(nm), 3000 if span else None): dead.add(nm)
                    else: proofs.append((nm, ex.line, time.time() - t))
            if not dead: break
            if ex.opt.get("verbose"): print("   drop", sorted(dead)[:12])
            alive = [c for c in alive if c[0] not in dead]
        if ex.opt.get("verbose"):
            print(f"  loop {L.fname}#{L.index} line {ex.line}: {len(cands)} candidates, {len(alive)} kept in {rounds} rounds")
            for nm, _, _ in alive: print("      inv", nm)
        if skey is not None: ex.newsurv.setdefault(skey, set()).update(norm(c[0]) for c in alive)
    finally:
        ex.dry -= 1; ex.icmplog = savelog; ex.modset = outer_modset
    ex.loops_seen += 1; ex.inv_kept += len(alive)
    if ex.dry == 0:
        hs, henv = header(); hv = View(L, hs, L.hdrvals)
        for nm, fn, strong in alive:
            g = fn(hv)
            if g is not None: hs.assume(g)
        ex.loopstack.append(L)
        try: outs = ex.run_blocks(func, hs, henv, h, None, h, body)
        finally: ex.loopstack.pop()
        # every kept candidate was proved in the last round, under all kept ones and nothing else; with loops inside, once more against the states of the reporting run
        if not inner:
            for nm, ln, t in proofs: ex.obls.append(symex.Obl(f"loop invariant preserved: {nm}", "invariant", ex.cur, ln, Res(True, "proved"), t))
        for o in outs:
            if o.k == "back" and inner:
                bv = back_view(o)
                for nm, fn, strong in alive:
                    g = fn(bv)
                    if g is None: continue
                    t = time.time(); r = prove(o.st.pc, g)
                    ex.obls.append(symex.Obl(f"loop invariant preserved: {nm}", "invariant", ex.cur, ex.line, r, time.time() - t))
    return [o for o in outs if o.k != "back"]

def ukey_path(ex, k): return k

def ex_regs(ex, st): return None

def compatible(x, v):
    if x is None: return True if v is POISON else False
    if x.kind == "poison": return True
    if x.kind == "int": return isinstance(v, IV) and v.w == x.w
    if x.kind == "bool": return isinstance(v, (bool, z3.BoolRef))
    if x.kind == "bv": return isinstance(v, BV)
    if x.kind == "fp": return isinstance(v, FV)
    if x.kind == "ptr":
        if not (isinstance(v, Ptr) and v.r is x.region): return False
        q = v.off.sub(x.base).divmod(x.stride)
        return q is not None and q[1] == 0
    if x.kind == "fam": return isinstance(v, Ptr) and (v.r is None or (v.r is x.region and v.off.isconst() and v.off.c == x.base))
    if x.kind == "null": return isinstance(v, Ptr) and v.r is None
    return False

def quick(ex, pc, g, strong, own=None, tmo=None):
    if isinstance(g, bool): return g
    if strong:
        if own is not None:        # first with this candidate's own hypothesis and the quantifier-free ones only
            r, _ = smt._run([zb(c) for c in pc if not isinstance(c, bool) and not has_quant(c)] + [zb(own), zb(Not(g))], 300 if tmo is None else 1500, mbqi=False)
            if r == z3.unsat: return True
        if tmo is not None:
            if prove(pc, g, infer=True).ok: return True
            qf = [zb(c) for c in pc if not isinstance(c, bool) and not has_quant(c)] + [zb(Not(g))]      # one quantified hypothesis at a time, latest first
            for h in [c for c in reversed(pc) if not isinstance(c, bool) and has_quant(c)][:40]:
                if smt._run(qf + [h], 100, mbqi=False)[0] == z3.unsat: return True
            if own is not None:      # ... and the candidate's own hypothesis with one of the others, earliest first
                for h in [c for c in pc if not isinstance(c, bool) and has_quant(c) and not z3.eq(zb(c), zb(own))][:12]:
                    if smt._run(qf + [zb(own), h], 600, mbqi=False)[0] == z3.unsat: return True
        return prove(pc, g, infer=True, itmo=tmo).ok
    r, _ = smt._run([zb(c) for c in pc if not isinstance(c, bool)] + [zb(Not(g))] + [z3.BoolVal(False) for c in pc if c is False], 250, mbqi=False)
    return r == z3.unsat

def candidates(ex, L, hs, backs, back_view, log):
    out = []
    def C(name, fn, strong=False): out.append((name, fn, strong))
    ints = [x for x in L.vars if x.kind in ("int", "ptr")]
    bviews = [back_view(o) for o in backs]
    # constant strides
    for x in ints:
        ds = set()
        for bv in bviews:
            d = z3.simplify(ze(bv[x]) - ze(x.hdr))
            ds.add(d.as_long() if z3.is_int_value(d) else None)
        x.diff = ds
    L.stride1 = {x.name: next(iter(x.diff)) for x in ints if len(x.diff) == 1 and None not in x.diff}
    C("it>=0", lambda v: v["it"] >= 0 if not isc(v["it"]) else v["it"] >= 0)
    for x in ints:
        i0 = x.init
        C(f"{x.name}>=init", lambda v, x=x, i0=i0: ge(v[x], i0))
        C(f"{x.name}<=init", lambda v, x=x, i0=i0: le(v[x], i0))
        if x.name in L.stride1:
            c = L.stride1[x.name]
            C(f"{x.name}=init+{c}*it", lambda v, x=x, i0=i0, c=c: eq(v[x], add(i0, mul(c, v["it"]))))
        elif None not in x.diff and x.diff:
            mx, mn = max(x.diff), min(x.diff)
            C(f"{x.name}<=init+{mx}*it", lambda v, x=x, i0=i0, c=mx: le(v[x], add(i0, mul(c, v["it"]))))
            C(f"{x.name}>=init+{mn}*it", lambda v, x=x, i0=i0, c=mn: ge(v[x], add(i0, mul(c, v["it"]))))
    # bounds from comparisons with loop-invariant operands
    bounds = {}
    def addb(e):
        e = ze(e)
        if maxfresh(e) <= L.base: bounds[e.sexpr()] = e
    pb = []
    for a, b, pr in log:
        if pr == "p":
            pb += [a, b]; continue
        for p in (a, b):
            if p.e is None: continue
            if isc(p.e): 
                if abs(p.e) < (1 << 40): addb(ex.S(None, p) if pr[0] == "s" else ex.U(None, p))
            elif p.lo is not None: addb(p.e)
    for x in ints: addb(x.init)
    for nm, e in getattr(ex, "extra_bounds", lambda L: [])(L): bounds[nm] = ze(e)
    bl = list(bounds.items())[:14]
    L.bounds = bl
    for x in ints:
        for nm, e in bl:
            if z3.is_int_value(e) and isc(x.init) and e.as_long() == x.init: continue
            C(f"{x.name}<={nm}", lambda v, x=x, e=e: le(v[x], e))
            C(f"{x.name}<{nm}", lambda v, x=x, e=e: lt(v[x], e))
            C(f"{x.name}>={nm}", lambda v, x=x, e=e: ge(v[x], e))
            if len(bl) < 8: C(f"{x.name}<={nm}+1", lambda v, x=x, e=e: le(v[x], e + 1))
    # the compared expression itself (such as base+j) up to its loop-invariant bound
    hv = [(x, x.hdr) for x in ints if x.kind == "int"]; seenc = set()
    for a, b, pr in log:
        if pr == "p" or len(seenc) >= 4: continue
        for p, o in ((a, b), (b, a)):
            if p.e is None or o.e is None or isc(p.e) or isc(o.e): continue
            e, m = ze(p.e), ze(o.e)
            if maxfresh(m) > L.base or maxfresh(e) <= L.base or any(z3.eq(e, h) for _, h in hv): continue
            if maxfresh(z3.substitute(e, *[(h, z3.IntVal(0)) for _, h in hv])) > L.base: continue
            k = (e.sexpr(), m.sexpr())
            if k in seenc: continue
            seenc.add(k); C(f"{k[0]}<={k[1]}", lambda v, e=e, m=m: z3.substitute(e, *[(h, ze(v[x])) for x, h in hv]) <= m)
    seenp = set()
    for p in pb:
        for x in ints:
            if x.kind != "ptr" or p.r is not x.region: continue
            q = p.off.sub(x.base).divmod(x.stride)
            if q is None or q[1] != 0: continue
            e = ze(q[0])
            if maxfresh(e) > L.base or (x.name, e.sexpr()) in seenp or len(seenp) > 8: continue
            seenp.add((x.name, e.sexpr()))
            C(f"{x.name}<=ptr {e}", lambda v, x=x, e=e: le(v[x], e))
            C(f"{x.name}>=ptr {e}", lambda v, x=x, e=e: ge(v[x], e))
    for i, x in enumerate(ints):
        for y in ints:
            if x is y: continue
            C(f"{x.name}<={y.name}", lambda v, x=x, y=y: le(v[x], v[y]))
            if x.name < y.name:
                C(f"{x.name}-{y.name}=const", lambda v, x=x, y=y: eq(sub(v[x], v[y]), sub(x.init, y.init)))
                C(f"{x.name}+{y.name}=const", lambda v, x=x, y=y: eq(add(v[x], v[y]), add(x.init, y.init)))
            if x.name not in L.stride1 or y.name not in L.stride1:
                C(f"{x.name}-{y.name}<=const", lambda v, x=x, y=y: le(sub(v[x], v[y]), sub(x.init, y.init)))
                if len(ints) <= 6:
                    for w in ints:
                        if w is x or w is y or not (y.name < w.name): continue
                        C(f"{x.name}<={y.name}+{w.name}+const", lambda v, x=x, y=y, w=w: le(sub(v[x], add(v[y], v[w])), sub(x.init, add(y.init, w.init))))
            C(f"{x.name}<={y.name}+1", lambda v, x=x, y=y: le(v[x], add(v[y], 1)))
    # booleans
    for x in L.vars:
        if x.kind == "bool":
            C(f"{x.name}", lambda v, x=x: zb(v[x])); C(f"!{x.name}", lambda v, x=x: Not(zb(v[x])))
        if x.kind == "fam":
            C(f"{x.name}!=null", lambda v, x=x: Not(eq(v[x], 0)))
    # store summaries
    store_summaries(ex, L, hs, backs, C)
    for gen in ex.loopcands:
        for t in gen(L) or []:
            nm, fn = t[0], t[1]
            C("spec:" + nm, fn, True)
    # unique names
    seen = set(); res = []
    for nm, fn, s in out:
        if nm in seen: continue
        seen.add(nm); res.append((nm, fn, s))
    return res

def store_summaries(ex, L, hs, backs, C):
    """for counting loops: what the k-th iteration stored, for all past iterations; and what is untouched"""
    subs_vars = [(x.hdr, x.init, L.stride1.get(x.name)) for x in L.vars if x.kind in ("int", "ptr")]
    for k, r, a0, a in L.arrs:
        if r is None or not (isinstance(a, z3.ArrayRef)) : continue
        n = 0
        for bi, o in enumerate(backs):
            for (wr, off, idx, val) in o.st.writes:
                if wr is not r or off != k[1] or idx is None: continue
                idx = ze(idx); n += 1
                if n > 6: break
                t = z3.Int("t!q")
                ok = True
                sub_ = [(L.it, t)]; free = []
                for hdr, init, c in subs_vars:
                    if c is not None: sub_.append((hdr, ze(add(init, mul(c, t)))))
                    else: free.append(hdr)
                def clean(e):
                    e2 = z3.substitute(e, *sub_)
                    return e2 if maxfresh2(e2, L.base) else None
                it_ = clean(idx); v_ = clean(ze(val))
                lin = None
                if it_ is not None and v_ is not None:
                    base = z3.simplify(it_ - t)
                    if not occurs(base, t): lin = base
                if lin is not None:
                    q = z3.Int("k!q")
                    w_ = z3.substitute(v_, (t, q - lin))
                    def f(v, lin=lin, w_=w_, k=k, r=r, q=q):
                        return z3.ForAll([q], z3.Implies(z3.And(q >= lin, q < lin + ze(v["it"])), z3.Select(v.arr(r, k[1]), q) == w_))
                    C(f"stored#{r.name}@{k[1]}#{bi}.{n}", f)
                elif it_ is not None and v_ is not None:
                    def f(v, it_=it_, v_=v_, k=k, r=r):
                        return z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < ze(v["it"])), z3.Select(v.arr(r, k[1]), it_) == v_))
                    C(f"stored#{r.name}@{k[1]}#{bi}.{n}", f)
                # frame: indices below the first / at or above the next one are untouched, and mirrored
                i0 = z3.substitute(idx, *[(x.hdr, ze(x.init)) for x in L.vars if x.kind in ("int", "ptr")], (L.it, z3.IntVal(0)))
                q = z3.Int("k!q")
                if maxfresh2(i0, L.base):
                    C(f"frame<#{r.name}@{k[1]}.{bi}.{n}", lambda v, i0=i0, k=k, r=r, a0=a0: z3.ForAll([q], z3.Implies(q < i0, z3.Select(v.arr(r, k[1]), q) == z3.Select(a0, q))))
                    C(f"frame>#{r.name}@{k[1]}.{bi}.{n}", lambda v, i0=i0, k=k, r=r, a0=a0: z3.ForAll([q], z3.Implies(q > i0, z3.Select(v.arr(r, k[1]), q) == z3.Select(a0, q))))
                def cur(v, idx=idx, hd=[(x, x.hdr) for x in L.vars if x.kind in ("int", "ptr")], it0=L.it):
                    return z3.substitute(idx, *[(hh, ze(v[x])) for x, hh in hd], (it0, ze(v["it"])))
                probe = z3.substitute(idx, *[(x.hdr, z3.IntVal(0)) for x in L.vars if x.kind in ("int", "ptr")], (L.it, z3.IntVal(0)))
                if maxfresh2(probe, L.base):
                    C(f"frame>=cur#{r.name}@{k[1]}.{bi}.{n}", lambda v, cur=cur, k=k, r=r, a0=a0: z3.ForAll([q], z3.Implies(q >= cur(v), z3.Select(v.arr(r, k[1]), q) == z3.Select(a0, q))))
                    C(f"frame<=cur#{r.name}@{k[1]}.{bi}.{n}", lambda v, cur=cur, k=k, r=r, a0=a0: z3.ForAll([q], z3.Implies(q <= cur(v), z3.Select(v.arr(r, k[1]), q) == z3.Select(a0, q))))

def occurs(e, x):
    if e.eq(x): return True
    return any(occurs(c, x) for c in e.children())

def maxfresh2(e, base):
    """no fresh name newer than base"""
    return maxfresh(z3.substitute(e)) <= base if True else False

def do_unroll(ex, func, st, env, h, prev, body, n):
    """full unrolling of a loop whose trip count is bounded by n (an obligation says it is)"""
    outs = []
    work = [(st, env, prev, 0)]
    while work:
        s, e, p, k = work.pop()
        e = dict(e)
        for nme, _, v in phi_incoming(ex, func, e, h, p): e[nme] = v
        for o in ex.run_blocks(func, s, e, h, None, h, body):
            if o.k == "back":
                if k + 1 > n:
                    ex.oblige(o.st, False, f"loop bound {n} exceeded", "unwind"); continue
                work.append((o.st, o.env, o.prev, k + 1))
            else: outs.append(o)
    return outs
