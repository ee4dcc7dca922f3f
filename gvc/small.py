"""Filter for candidate invariants: a small concrete state of the loop that falsifies a candidate drops it at once.
Quantifiers range over a small span here, so this only ever drops candidates; what it keeps is still proved for all states."""
import z3, time
from smt import *

_cache = {}
def expand(e, span):
    """quantifiers over span as finite conjunctions and disjunctions"""
    if isinstance(e, bool): return z3.BoolVal(e)
    if not has_quant(e): return e
    k = (e.get_id(), span)
    if k in _cache: return _cache[k][1]
    if z3.is_quantifier(e):
        n = e.num_vars(); insts = []
        if any(e.var_sort(i) != z3.IntSort() for i in range(n)): r = z3.BoolVal(e.is_forall())
        else:
            def go(vals):
                if len(vals) == n:
                    b = z3.simplify(z3.substitute_vars(e.body(), *reversed(vals)))
                    if e.is_forall() and z3.is_true(b) or not e.is_forall() and z3.is_false(b): return
                    insts.append(expand(b, span)); return
                for v in range(span[0], span[1] + 1): go(vals + [z3.IntVal(v)])
            go([])
            r = z3.And(insts) if e.is_forall() else z3.Or(insts)
    else: r = e.decl()(*[expand(c, span) for c in e.children()]) if not (z3.is_and(e) or z3.is_or(e)) else (z3.And if z3.is_and(e) else z3.Or)([expand(c, span) for c in e.children()])
    _cache[k] = (e, r); return r

class Filter:
    def __init__(self, pc, small, span, timeout=3000):
        s = self.s = z3.Solver(); s.set("timeout", timeout); self.span = span; self.dead = False
        for c in pc:
            if isinstance(c, bool):
                if not c: self.dead = True
                continue
            s.add(expand(c, span))
        for e, lo, hi in small:
            e = ze(e)
            if not z3.is_int_value(e): s.add(e >= lo, e <= hi)
    def kill(self, goals):
        """names of the goals [(name, formula)] that some small state falsifies"""
        if self.dead: return set()
        G = {n: expand(zb(g), self.span) for n, g in goals}; out = set()
        for _ in range(40):
            alive = [n for n in G if n not in out]
            if not alive: break
            self.s.push(); self.s.add(z3.Or([z3.Not(G[n]) for n in alive])); r = self.s.check()
            if r != z3.sat: self.s.pop(); break
            m = self.s.model(); now = {n for n in alive if z3.is_false(m.eval(G[n], model_completion=True))}; self.s.pop()
            if not now: break
            out |= now
        return out
