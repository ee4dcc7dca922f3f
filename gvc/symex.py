"""Symbolic execution of LLVM IR with contracts, loop invariants (Houdini) and proof obligations."""
import re, subprocess, time, os, struct
import z3
from ir import *
from smt import *
from vals import *

import vals as _vals
REGS = _vals.REGS

IEEE = {"float": z3.Float32(), "double": z3.Float64()}
FPS = dict(IEEE)
def fp_numbers(on):
    """floating point as mathematical numbers (an assumption the contract states): every operation exact, no NaN"""
    for k in FPS: FPS[k] = z3.IntSort() if on else IEEE[k]
def fpval(d, k):
    if FPS[k] == z3.IntSort():
        if d != int(d): raise Unsupported("fractional constant")
        return z3.IntVal(int(d))
    return z3.FPVal(d, FPS[k])

def same(a, b):
    if a is b: return True
    if a is None or b is None or type(a) is not type(b): return False
    if isinstance(a, (bool, int)): return a == b
    if isinstance(a, z3.ExprRef): return a.eq(b)
    if isinstance(a, IV): return a.w == b.w and same(a.e, b.e)
    if isinstance(a, (BV, FV)): return a.e.eq(b.e)
    if isinstance(a, Ptr):
        if a.r is not b.r or not same(a.key, b.key): return False
        return same(a.off.expr(), b.off.expr())
    if isinstance(a, PInt): return same(a.p, b.p)
    if isinstance(a, FnPtr): return a.name == b.name
    if isinstance(a, AV): return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    return False

class PathEnd(Exception):
    pass
class _Poison: pass
POISON = _Poison()

class Obl:
    def __init__(self, name, kind, func, line, res, secs):
        self.name, self.kind, self.func, self.line, self.res, self.secs = name, kind, func, line, res, secs

class Outcome:
    __slots__ = ("k", "st", "env", "blk", "prev", "val")
    def __init__(self, k, st, env=None, blk=None, prev=None, val=None):
        self.k, self.st, self.env, self.blk, self.prev, self.val = k, st, env, blk, prev, val

class LoopCtx:
    """What a candidate invariant can see: the loop-carried integers and the memory at the loop header."""
    def __init__(self, ex, func, header, phis, slots, arrs, env0, st0, it):
        self.ex, self.func, self.header, self.phis, self.slots, self.arrs, self.env0, self.st0, self.it = ex, func, header, phis, slots, arrs, env0, st0, it

class Exec:
    def __init__(self, mods, models, bv=False):
        self.mods = mods; self.bv = bv
        self.models = models          # list of (compiled regex, fn)
        self.contracts = {}           # demangled name -> contract
        self.obls = []
        self.dry = 0
        self.dem = {}
        names = set()
        for m in mods: names |= set(m.funcs) | set(m.decls)
        names = sorted(names)
        out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        self.dem = dict(zip(names, out))
        self.rev = {}
        for k, v in self.dem.items(): self.rev.setdefault(v, k)
        self.globalregs = {}
        self.loopcands = []           # candidate generators: f(LoopCtx) -> {name: fn(st, env) -> bool expr}
        self.allocas = {}; self.loopstack = []; self.survivors = {}; self.newsurv = {}; self.modset = False
        self.cur = "?"
        self.safety = True
        self.max_paths = 4000
        self.npaths = 0
        self.line = None
        self.deadline = None
        self.trusted = set()
        self.inlined = set()
        self.modelled = set()
        self.wrapcache = {}
        self.unroll = {}
        self.loops_seen = 0
        self.inv_kept = 0
        self.vacuity = []
        self.opt = {}
        self.icmplog = None
        self.regbyid = REGS

    # ------------------------------------------------------------ helpers
    def find(self, name):
        for m in self.mods:
            f = m.func(name)
            if f is not None: return f
        return None
    def demangle(self, n): return self.dem.get(n, n)

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")

    def oblige(self, st, goal, name, kind="assert", line=None):
        """record a proof obligation on the current path (not during inference runs)"""
        if self.dry: st.assume(goal); return
        self.check_deadline()
        t = time.time()
        r = prove(st.pc, goal)
        self.obls.append(Obl(name, kind, self.cur, line if line is not None else self.line, r, time.time() - t))
        if r.ok or kind == "safety":
            st.assume(goal)        # already reported if it failed

    # ------------------------------------------------------------ integers
    def const(self, w, v):
        v = v % (1 << w)
        if self.bv: return BV(w, z3.BitVecVal(v, w))
        return IV(w, v if v < (1 << (w - 1)) or w == 1 else v - (1 << w)) if w > 1 else IV(1, v)
    def fresh_int(self, w, nm, signed=False, st=None):
        if self.bv: return BV(w, fresh(nm, z3.BitVecSort(w)))
        e = fresh(nm)
        lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if signed else (0, (1 << w) - 1)
        if st is not None: st.assume(z3.And(e >= lo, e <= hi))
        return IV(w, e, lo, hi)
    def proves(self, st, g):
        """cheap entailment test used for wrap-around elimination"""
        if isinstance(g, bool): return g
        key = (g.get_id(), len(st.pc), st.pc[-1].get_id() if st.pc and not isinstance(st.pc[-1], bool) else 0)
        c = self.wrapcache.get(key)
        if c is not None and c[0].eq(g): return c[1]
        r, _ = __import__("smt")._run([zb(x) for x in st.pc if not isinstance(x, bool) and not has_quant(x)] + [z3.Not(g)], 400)
        if r == z3.unknown or r == z3.sat:
            ok = False
        else: ok = True
        if not ok and any(has_quant(x) for x in st.pc if not isinstance(x, bool)) and self.opt.get("quantwrap"):
            r, _ = __import__("smt")._run([zb(x) for x in st.pc if not isinstance(x, bool)] + [z3.Not(g)], 600)
            ok = r == z3.unsat
        self.wrapcache[key] = (g, ok)
        return ok
    def U(self, st, v):
        """canonical unsigned value"""
        if isinstance(v, PInt): raise Unsupported("pointer used as integer")
        M = 1 << v.w
        if isc(v.e): return v.e % M
        if v.lo is not None and v.lo >= 0 and v.hi < M: return v.e
        lo_ok = v.lo is not None and v.lo >= 0
        hi_ok = v.hi is not None and v.hi < M
        g = And(True if lo_ok else v.e >= 0, True if hi_ok else v.e < M)
        if self.proves(st, g): return v.e
        if v.lo is not None and v.lo >= -M and v.hi < M: return z3.If(v.e < 0, v.e + M, v.e)
        if v.lo is not None and v.lo >= 0 and v.hi < 2 * M: return z3.If(v.e >= M, v.e - M, v.e)
        return v.e % M
    def S(self, st, v):
        if isinstance(v, PInt): raise Unsupported("pointer used as integer")
        M = 1 << v.w; H = M >> 1
        if isc(v.e):
            x = v.e % M
            return x - M if x >= H else x
        if v.lo is not None and v.lo >= -H and v.hi < H: return v.e
        g = z3.And(v.e >= -H, v.e < H)
        if self.proves(st, g): return v.e
        if v.lo is not None and v.lo >= -H and v.hi < M + H: return z3.If(v.e >= H, v.e - M, v.e)
        return (v.e + H) % M - H
    def mk(self, w, e, lo=None, hi=None, lin=None):
        e = fold(e)
        if isc(e):
            return self.const(w, e)
        if lo is not None and (hi - lo) > (1 << 200): lo = hi = None
        return IV(w, e, lo, hi, lin)
    def norm_store(self, st, v, signed): return self.S(st, v) if signed else self.U(st, v)

    def bool_of(self, st, v):
        """z3 bool of an i1"""
        if isinstance(v, (bool, z3.BoolRef)): return v
        raise Unsupported("i1 expected")

    def binop(self, st, op, t, a, b):
        if t.k in ("float", "double"):
            if self.opt.get("fp") == "havoc": return FV(t.k, fresh("fp", FPS[t.k]))
            if FPS[t.k] == z3.IntSort():
                if op not in ("fadd", "fsub"): raise Unsupported(op)
                return FV(t.k, a.e + b.e if op == "fadd" else a.e - b.e)
            rm = z3.RNE()
            f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}.get(op)
            if not f: raise Unsupported(op)
            return FV(t.k, f(rm, a.e, b.e))
        if t.k != "i": raise Unsupported("vector op")
        w = t.a
        if w == 1:
            a, b = self.bool_of(st, a), self.bool_of(st, b)
            if op == "and": return And(a, b)
            if op == "or": return Or(a, b)
            if op == "xor":
                if isinstance(b, bool): return Not(a) if b else a
                if isinstance(a, bool): return Not(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        if self.bv: return self.bv_binop(op, w, a, b)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
                if a.p.r is b.p.r and (a.p.key is b.p.key or (a.p.key is not None and fold(sub(a.p.key, b.p.key)) == 0)):
                    l = a.p.off.sub(b.p.off)
                    return self.mk(64, l.expr(), -(1 << 62), 1 << 62, l)
                if a.p.r is None and b.p.r is None: return self.const(64, 0)
                raise Unsupported("difference of unrelated pointers")
            raise Unsupported("pointer arithmetic via integers: " + op)
        def iv(f, x, y):
            if x.lo is None or y.lo is None: return (None, None)
            c = [f(p, q) for p in (x.lo, x.hi) for q in (y.lo, y.hi)]
            return (min(c), max(c))
        if op == "add":
            lo, hi = iv(lambda p, q: p + q, a, b)
            lin = (a.lin or Lin.of(a.e)).add(b.lin or Lin.of(b.e)) if (a.lin or b.lin) else None
            return self.mk(w, add(a.e, b.e), lo, hi, lin)
        if op == "sub":
            lo, hi = iv(lambda p, q: p - q, a, b)
            lin = (a.lin or Lin.of(a.e)).sub(b.lin or Lin.of(b.e)) if (a.lin or b.lin) else None
            return self.mk(w, sub(a.e, b.e), lo, hi, lin)
        if op == "mul":
            lo, hi = iv(lambda p, q: p * q, a, b)
            lin = None
            if isc(b.e) and a.lin: lin = a.lin.scale(b.e)
            return self.mk(w, mul(a.e, b.e), lo, hi, lin)
        if op == "udiv" and isc(b.e):
            d = b.e % (1 << w)
            if d == 0: raise Unsupported("division by zero")
            x = self.U(st, a)
            if a.lin is not None and not isc(x) and x is a.e:
                q = a.lin.divmod(d)
                if q and q[1] == 0: return self.mk(w, q[0], 0, (1 << w) - 1)
            # (k*e)/k
            return self.mk(w, x // d if isc(x) else self.divc(x, d), 0, ((1 << w) - 1) // d)
        if op == "urem" and isc(b.e):
            d = b.e % (1 << w); x = self.U(st, a)
            return self.mk(w, x % d, 0, d - 1)
        if op == "sdiv" and isc(b.e):
            d = self.S(st, b)
            if a.lin is not None:
                q = a.lin.divmod(d)
                if q and q[1] == 0: return self.mk(w, q[0], -(1 << 62), 1 << 62, Lin.of(q[0]))
            x = self.S(st, a)
            if d <= 0: raise Unsupported("sdiv by non-positive constant")
            if isc(x): return self.const(w, abs(x) // d * (1 if x >= 0 else -1))
            if (a.lo is not None and a.lo >= 0 and x is a.e) or self.proves(st, x >= 0): return self.mk(w, self.divc(x, d), 0, (1 << (w-1)) // d)
            return self.mk(w, z3.If(x >= 0, x / d, -((-x) / d)), -(1 << (w-1)), 1 << (w-1))
        if op == "srem" and isc(b.e):
            d = abs(self.S(st, b)); x = self.S(st, a)
            if isc(x): return self.const(w, abs(x) % d * (1 if x >= 0 else -1))
            if self.proves(st, x >= 0): return self.mk(w, x % d, 0, d - 1)
            return self.mk(w, z3.If(x >= 0, x % d, -((-x) % d)), -(d-1), d - 1)
        if op in ("udiv", "urem", "sdiv", "srem"):
            x, y = (self.U(st, a), self.U(st, b)) if op[0] == "u" else (self.S(st, a), self.S(st, b))
            self.oblige(st, Not(eq(y, 0)), "division by zero", "safety")
            if op[0] == "s" and not (self.proves(st, ge(x, 0)) and self.proves(st, ge(y, 0))):
                self.oblige(st, Not(And(eq(x, -(1 << (w - 1))), eq(y, -1))), "quotient out of range", "safety")
                return self.mk(w, tdiv(x, y) if op == "sdiv" else ze(x) - ze(y) * tdiv(x, y), -(1 << (w - 1)), 1 << (w - 1))
            return self.mk(w, ze(x) / ze(y) if "div" in op else ze(x) % ze(y), 0, (1 << w) - 1)
        if op == "shl" and isc(b.e):
            k = 1 << (b.e % (1 << w))
            return self.mk(w, mul(a.e, k), None if a.lo is None else a.lo * k, None if a.lo is None else a.hi * k)
        if op == "lshr" and isc(b.e):
            k = 1 << (b.e % (1 << w)); x = self.U(st, a)
            return self.mk(w, x // k if isc(x) else x / k, 0, ((1 << w) - 1) // k)
        if op == "ashr" and isc(b.e):
            k = 1 << (b.e % (1 << w)); 
            if a.lin is not None:
                q = a.lin.divmod(k)
                if q and q[1] == 0: return self.mk(w, q[0], -(1 << 62), 1 << 62, Lin.of(q[0]))
            x = self.S(st, a)
            return self.mk(w, x // k if isc(x) else x / k, -(1 << (w-1)) // k, ((1 << (w-1)) - 1) // k)
        if isc(a.e) and isc(b.e):
            x, y = a.e % (1 << w), b.e % (1 << w)
            return self.const(w, {"and": x & y, "or": x | y, "xor": x ^ y}[op])
        if op == "and":
            if isc(a.e): a, b = b, a
            if isc(b.e):
                m = b.e % (1 << w)
                x = self.U(st, a)
                if m == 0: return self.const(w, 0)
                if m & (m + 1) == 0: return self.mk(w, x % (m + 1), 0, m)
                # contiguous mask  2^h - 2^l
                l = (m & -m).bit_length() - 1
                if ((m >> l) & ((m >> l) + 1)) == 0:
                    h = m.bit_length()
                    r = (x % (1 << h)) - (x % (1 << l))
                    return self.mk(w, r, 0, m)
                return self.mk(w, self.masked(x, m), 0, m)
        if op == "or":
            if isc(a.e): a, b = b, a
            x = self.U(st, a)
            if isc(b.e):
                m = b.e % (1 << w)
                return self.mk(w, add(x, m) - self.masked(x, m) if m else x, m, (1 << w) - 1)
            y = self.U(st, b)
            for x, y in ((x, y), (y, x)):      # disjoint bits: y = z * 2^k < 2^h and bits k..h of x are zero
                ly = __import__("models").linz(y); k = 0
                while all(c % (2 << k) == 0 for _, c in ly.t.values()) and ly.c % (2 << k) == 0 and k < w: k += 1
                for h in range(k + 1, w + 1):
                    if h < w and not self.proves(st, lt(y, 1 << h)): continue
                    if self.proves(st, eq(ze(x) % (1 << h), ze(x) % (1 << k))): return self.mk(w, add(x, y), 0, (1 << w) - 1)
                    break
        if op == "xor" and (isc(b.e) or isc(a.e)):
            if isc(a.e): a, b = b, a
            if b.e % (1 << w) == 0: return a
            if b.e % (1 << w) == (1 << w) - 1:
                return self.mk(w, sub(-1, a.e), None if a.lo is None else -1 - a.hi, None if a.lo is None else -1 - a.lo)
            if b.e == 1 and a.b is not None:
                nb = Not(a.b); return self.zext_bool(nb, w)
        if op in ("and", "or", "xor") and a.b is not None and b.b is not None:
            nb = {"and": And, "or": Or, "xor": lambda p, q: z3.Xor(ze(p), ze(q))}[op](a.b, b.b)
            return self.zext_bool(nb, w)
        raise Unsupported(f"integer op {op} on symbolic operands (use bit-vector mode)")
    def masked(self, x, m):
        """x & m for a constant mask: one difference of remainders for each run of ones"""
        out = 0; l = 0
        while m >> l:
            while not (m >> l) & 1: l += 1
            h = l
            while (m >> h) & 1: h += 1
            t = (ze(x) % (1 << h)) - (ze(x) % (1 << l)) if l else ze(x) % (1 << h)
            out = add(out, t); l = h
        return out
    def divc(self, x, d):
        # x / d with x >= 0; strip a syntactic multiple
        x = fold(x)
        if isc(x): return x // d
        s = z3.simplify(x)
        if z3.is_mul(s) and s.num_args() == 2 and z3.is_int_value(s.arg(0)) and s.arg(0).as_long() % d == 0:
            return mul(s.arg(0).as_long() // d, s.arg(1))
        return x / d
    def zext_bool(self, b, w):
        if isinstance(b, bool): return self.const(w, int(b))
        if self.bv: return BV(w, z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
        return IV(w, z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1, None, b)
    def bv_binop(self, op, w, a, b):
        x, y = a.e, b.e
        f = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
             "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y, "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y),
             "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y)}[op]
        return BV(w, z3.simplify(f()))

    def icmp(self, st, pr, t, a, b):
        if t.k == "ptr" or isinstance(a, (Ptr, FnPtr)): return self.pcmp(st, pr, a, b)
        if isinstance(a, PInt) and isinstance(b, PInt): return self.pcmp(st, pr, a.p, b.p)
        if t.k == "i" and t.a == 1:
            a, b = self.bool_of(st, a), self.bool_of(st, b)
            if pr == "eq": return Iff(a, b)
            if pr == "ne": return Not(Iff(a, b))
            raise Unsupported("i1 icmp " + pr)
        if self.bv:
            x, y = a.e, b.e
            f = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y),
                 "slt": lambda: x < y, "sle": lambda: x <= y, "sgt": lambda: x > y, "sge": lambda: x >= y}[pr]
            r = z3.simplify(f())
            return True if z3.is_true(r) else False if z3.is_false(r) else r
        if self.icmplog is not None: self.icmplog.append((a, b, pr))
        if pr in ("eq", "ne"):
            # i8 0/1 compared with 0
            for p, q in ((a, b), (b, a)):
                if p.b is not None and isc(q.e):
                    if q.e == 0: return Not(p.b) if pr == "eq" else p.b
                    if q.e == 1: return p.b if pr == "eq" else Not(p.b)
            M = 1 << a.w; H = M >> 1
            def rng(v, lo, hi): return v.lo is not None and v.lo >= lo and v.hi <= hi
            if (rng(a, 0, M-1) and rng(b, 0, M-1)) or (rng(a, -H, H-1) and rng(b, -H, H-1)): x, y = a.e, b.e
            elif isc(b.e) and a.lo is not None and a.lo >= -H and a.hi < H: x, y = a.e, self.S(st, b)
            else: x, y = self.U(st, a), self.U(st, b)
            r = eq(x, y)
            return Not(r) if pr == "ne" else r
        if pr[0] == "u": x, y = self.U(st, a), self.U(st, b)
        else: x, y = self.S(st, a), self.S(st, b)
        return {"lt": lt, "le": le, "gt": gt, "ge": ge}[pr[1:]](x, y)

    def pcmp(self, st, pr, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            an = a.name if isinstance(a, FnPtr) else None; bn = b.name if isinstance(b, FnPtr) else None
            r = an == bn
            if pr not in ("eq", "ne"): raise Unsupported("fn ptr compare")
            return r if pr == "eq" else not r
        if a.r is None and b.r is None: r = eq(a.off.expr(), b.off.expr())
        elif a.r is None or b.r is None:
            p = a if b.r is None else b
            if p.key is not None and p.off.isconst() and p.off.c == 0: r = eq(p.key, 0)
            elif getattr(p.r, "maybe_null", None) is not None: r = p.r.maybe_null
            else: r = False
            if pr not in ("eq", "ne"): raise Unsupported("null pointer order")
            return Not(r) if pr == "ne" else r
        elif a.r is not b.r:
            if pr not in ("eq", "ne"): raise Unsupported("order of unrelated pointers")
            r = False
        else:
            if a.key is not None:
                ke = eq(a.key, b.key)
            else: ke = True
            if self.icmplog is not None and a.key is None: self.icmplog.append((a, b, "p"))
            d = a.off.sub(b.off)
            if pr in ("eq", "ne"): r = And(ke, eq(d.expr(), 0) if not d.isconst() else d.c == 0)
            else:
                if ke is not True: raise Unsupported("order of family pointers")
                x, y = d.expr(), 0
                return {"lt": lt, "le": le, "gt": gt, "ge": ge}[pr[1:]](x, y)
        return Not(r) if pr == "ne" else r

    def fcmp(self, st, pr, a, b):
        if self.opt.get("fp") == "havoc": return fresh("fcmp", z3.BoolSort())
        x, y = a.e, b.e
        if x.sort() == z3.IntSort():
            if pr in ("ord", "uno"): return pr == "ord"
            return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pr[1:]]
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        base = {"eq": lambda: z3.fpEQ(x, y), "gt": lambda: z3.fpGT(x, y), "ge": lambda: z3.fpGEQ(x, y), "lt": lambda: z3.fpLT(x, y), "le": lambda: z3.fpLEQ(x, y), "ne": lambda: z3.And(z3.Not(z3.fpEQ(x, y)), z3.Not(un))}
        if pr == "ord": return z3.Not(un)
        if pr == "uno": return un
        if pr[0] == "o": return base[pr[1:]]()
        if pr == "une": return z3.Not(z3.fpEQ(x, y))
        return z3.Or(un, base[pr[1:]]())

    def cast(self, st, op, t, v, t2):
        if op in ("bitcast", "addrspacecast"):
            if t.k == t2.k: return v
            raise Unsupported("bitcast")
        if op == "ptrtoint": return PInt(v)
        if op == "inttoptr":
            if isinstance(v, PInt): return v.p
            raise Unsupported("inttoptr")
        if isinstance(v, PInt):
            raise Unsupported("cast of pointer integer")
        if op in ("fpext", "fptrunc"): return FV(t2.k, z3.fpFPToFP(z3.RNE(), v.e, FPS[t2.k]))
        cv = self.opt.get("conv")
        if cv and op == "sitofp" and t2.k in cv["si"] and isinstance(v, IV):
            x = self.S(st, v); return FV(t2.k, fpval(x, t2.k)) if isc(x) else FV(t2.k, cv["si"][t2.k](ze(x)))
        if cv and op == "fptosi" and (t.k, t2.a) in cv["fs"]:
            x = cv["fs"][(t.k, t2.a)](v.e); h = 1 << (t2.a - 1); st.assume(z3.And(x >= -h, x < h)); return IV(t2.a, x, -h, h - 1)
        if op in ("sitofp", "uitofp"):
            if isinstance(v, (bool, z3.BoolRef)): v = self.zext_bool(v, 8)
            if isinstance(v, BV): 
                return FV(t2.k, (z3.fpSignedToFP if op[0] == "s" else z3.fpUnsignedToFP)(z3.RNE(), v.e, FPS[t2.k]))
            if self.opt.get("fp") == "havoc": return FV(t2.k, fresh("fp", FPS[t2.k]))
            x = self.S(st, v) if op[0] == "s" else self.U(st, v)
            if isc(x): return FV(t2.k, fpval(x, t2.k))
            return FV(t2.k, z3.fpRealToFP(z3.RNE(), z3.ToReal(ze(x)), FPS[t2.k]))
        if op in ("fptosi", "fptoui"):
            if self.bv: return BV(t2.a, (z3.fpToSBV if op == "fptosi" else z3.fpToUBV)(z3.RTZ(), v.e, z3.BitVecSort(t2.a)))
            raise Unsupported(op)
        w2 = t2.a
        if t.k == "i" and t.a == 1:
            if op == "zext": return self.zext_bool(v, w2)
            if op == "sext":
                if isinstance(v, bool): return self.const(w2, -1 if v else 0)
                if self.bv: return BV(w2, z3.If(v, z3.BitVecVal(-1, w2), z3.BitVecVal(0, w2)))
                return IV(w2, z3.If(v, z3.IntVal(-1), z3.IntVal(0)), -1, 0)
        if self.bv:
            if op == "zext": return BV(w2, z3.simplify(z3.ZeroExt(w2 - v.w, v.e)))
            if op == "sext": return BV(w2, z3.simplify(z3.SignExt(w2 - v.w, v.e)))
            if op == "trunc":
                r = z3.simplify(z3.Extract(w2 - 1, 0, v.e))
                if w2 == 1: 
                    q = z3.simplify(r == 1)
                    return True if z3.is_true(q) else False if z3.is_false(q) else q
                return BV(w2, r)
        if op == "zext":
            e = self.U(st, v)
            lo, hi = (v.lo, v.hi) if e is v.e and v.lo is not None and v.lo >= 0 and v.hi < (1 << v.w) else (0, (1 << v.w) - 1)
            r = self.mk(w2, e, lo, hi, v.lin if e is v.e else None)
            if isinstance(r, IV): r.b = v.b
            return r
        if op == "sext":
            e = self.S(st, v)
            lo, hi = (v.lo, v.hi) if e is v.e and v.lo is not None and v.lo >= -(1 << (v.w-1)) and v.hi < (1 << (v.w-1)) else (-(1 << (v.w-1)), (1 << (v.w-1)) - 1)
            r = self.mk(w2, e, lo, hi, v.lin if e is v.e else None)
            if isinstance(r, IV): r.b = v.b
            return r
        if op == "trunc":
            if w2 == 1:
                if v.b is not None: return v.b
                if isc(v.e): return bool(v.e & 1)
                if v.lo is not None and v.lo >= 0 and v.hi <= 1: return v.e == 1
                g = z3.And(v.e >= 0, v.e <= 1)
                if self.proves(st, g): return v.e == 1
                return v.e % 2 == 1
            r = self.mk(w2, v.e, v.lo, v.hi, v.lin)
            if isinstance(r, IV): r.b = v.b
            return r
        raise Unsupported(op)

    # ------------------------------------------------------------ constants
    def cval(self, func, ty, c):
        k = c[0]
        if k == "i":
            if ty.k == "i":
                if ty.a == 1: return bool(c[1] & 1)
                return self.const(ty.a, c[1])
            raise Unsupported("int constant of type " + repr(ty))
        if k == "null": return NULL
        if k == "f":
            s = c[1]
            if s.startswith("0x"):
                if not re.fullmatch("0x[0-9A-Fa-f]{16}", s): raise Unsupported("fp constant")
                d = struct.unpack(">d", bytes.fromhex(s[2:]))[0]
            else: d = float(s)
            return FV(ty.k, fpval(d, ty.k))
        if k == "g": return self.global_ptr(func, c[1])
        if k == "zero":
            if ty.k == "ptr": return NULL
            if ty.k == "i": return False if ty.a == 1 else self.const(ty.a, 0)
            if ty.k in FPS: return FV(ty.k, fpval(0, ty.k))
            r = func.mod.resolve(ty)
            if r.k == "struct": return AV([self.cval(func, e, ("zero", e)) for e in r.a])
            raise Unsupported("zeroinitializer " + repr(ty))
        if k == "undef":
            if ty.k == "i":
                if ty.a == 1: return fresh("undef", z3.BoolSort())
                return self.fresh_int(ty.a, "undef")
            if ty.k == "ptr": return NULL
            r = func.mod.resolve(ty) if ty.k in ("named", "struct") else ty
            if r.k == "struct": return AV([self.cval(func, e, ("undef", e)) for e in r.a])
            if ty.k in FPS: return FV(ty.k, fresh("undef", FPS[ty.k]))
            raise Unsupported("undef " + repr(ty))
        if k == "cgep":
            base = self.cval(func, c[2][0][0], c[2][0][1])
            return self.gep(None, func, c[1], base, [(t, self.cval(func, t, v)) for t, v in c[2][1:]])
        if k == "ccast":
            return self.cast(None, c[1], c[2], self.cval(func, c[2], c[3]), c[4])
        if k == "agg":
            return AV([self.cval(func, t, v) for t, v in c[2]])
        raise Unsupported("constant " + k)

    def global_ptr(self, func, name):
        if any(name in m.funcs or name in m.decls for m in self.mods) and name not in func.mod.globals: return FnPtr(name)
        if name in func.mod.funcs or name in func.mod.decls or name in func.mod.aliases: return FnPtr(name)
        if name in self.globalregs: return Ptr(self.globalregs[name])
        d = None; mod = func.mod
        for m in [func.mod] + self.mods:
            if name in m.globals:
                x = m.globals[name]
                if d is None or ("external" in d and "external" not in x): d = x; mod = m
        r = Region("@" + name, "obj", mod=mod)
        r.pre = True
        r.const = False
        if name.startswith("_ZTV") and d is not None and " constant " in d:
            for i, x in enumerate(re.findall(r"ptr (null|@[\w.$]+)", d.split(" constant ", 1)[1].split("[", 2)[-1].split("]", 1)[1])):
                r.init[8 * i] = NULL if x == "null" else FnPtr(x[1:]); r.slotw[8 * i] = 8
            r.const = True; self.globalregs[name] = r
            return Ptr(r)
        if d is not None and not re.search(r"\bexternal\b", d):
            m = re.search(r"\b(constant|global)\b\s+(.*)$", d)
            if m:
                try:
                    # local string constants belong to one module
                    body = re.split(r", (?:comdat|align|section|!)", m.group(2))[0]
                    p = P(tokenize(body)); t = p.type(); r.ty = t
                    if m.group(1) == "constant":
                        v = p.value(t)
                        r.const = True
                        rt = mod.resolve(t)
                        if v[0] == "cstr":
                            bs = self.cstr(v[1]); r.kind = "arr"; r.stride = 1; r.nbytes = Lin(len(bs)); r.bytes = bs
                            a = z3.K(z3.IntSort(), z3.IntVal(0))
                            for i, x in enumerate(bs): a = z3.Store(a, i, x)
                            r.init[0] = a; r.slotw[0] = 1
                        elif t.k in ("i", "ptr", "float", "double"):
                            r.init[0] = self.cval(func, t, v)
                        elif rt.k == "arr" and v[0] == "agg" and rt.b.k == "i":
                            w = mod.size(rt.b); r.kind = "arr"; r.stride = w; r.nbytes = Lin(w * rt.a); r.slotw[0] = w
                            a = z3.K(z3.IntSort(), z3.IntVal(0))
                            for i, (tt, x) in enumerate(v[2]): a = z3.Store(a, i, x[1] % (1 << rt.b.a))
                            r.init[0] = a
                        elif rt.k == "arr" and v[0] == "zero" and rt.b.k == "i" :
                            w = mod.size(rt.b); r.kind = "arr"; r.stride = w; r.nbytes = Lin(w * rt.a); r.slotw[0] = w
                            r.init[0] = z3.K(z3.IntSort(), z3.IntVal(0)); r.bytes = b"\0" * rt.a
                except Unsupported:
                    pass
        if r.kind == "obj" and r.ty is None and d is not None:
            m = re.search(r"\b(constant|global)\b\s+(.*)$", d)
            try: r.ty = P(tokenize(re.split(r", (?:comdat|align|section|!)", m.group(2))[0])).type()
            except Exception: pass
        self.globalregs[name] = r
        return Ptr(r)
    def cstr(self, s):
        s = s[2:-1]; out = bytearray(); i = 0
        while i < len(s):
            if s[i] == "\\":
                if s[i+1] == "\\": out.append(92); i += 2
                else: out.append(int(s[i+1:i+3], 16)); i += 3
            else: out += s[i].encode(); i += 1
        return bytes(out)

    def val(self, fr, env, ty, c):
        if c[0] == "l":
            if c[1] not in env: raise Unsupported("undefined value %" + c[1])
            return env[c[1]]
        return self.cval(fr, ty, c)

    # ------------------------------------------------------------ memory
    def gep(self, st, func, sty, base, idx):
        if isinstance(base, PInt): base = base.p
        if not isinstance(base, Ptr): raise Unsupported("gep on " + repr(base))
        mod = func.mod
        off = base.off
        r = base.r
        t = sty
        first = True
        for it, iv in idx:
            if first:
                sz = mod.size(t); first = False
            else:
                rt = mod.resolve(t)
                if rt.k == "struct":
                    c = iv.e if isinstance(iv, IV) else (z3.simplify(iv.e).as_long() if isinstance(iv, BV) else iv)
                    off = off.add(Lin(mod.layout(rt)[2][c])); t = rt.a[c]; continue
                t = rt.b; sz = mod.size(t)
            if isinstance(iv, BV):
                s = z3.simplify(iv.e)
                if not z3.is_bv_value(s): raise Unsupported("symbolic index in bit-vector mode")
                e = s.as_signed_long()
            elif isc(iv.e): e = self.S(st, iv)
            else: e = self.S(st, iv) if st is not None else iv.e
            if r is not None and r.kind == "arr" and r.stride is None and sz > 1: r.stride = sz
            off = off.add((Lin.of(e) if not (isinstance(iv, IV) and iv.lin is not None and iv.e is e) else iv.lin).scale(sz))
        return Ptr(r, off, base.key)

    def sub_region(self, r, off):
        """embedded arrays inside an object are separate 'arr' regions: find the one covering constant offset off"""
        for (a, b, sr) in getattr(r, "embedded", ()):
            if a <= off < b: return sr, a
        return None

    def addr(self, st, p, size, what):
        """resolve a pointer to (region, offset-in-element, index) with safety obligations"""
        if not isinstance(p, Ptr): raise Unsupported("dereference of " + repr(p))
        r = p.r
        if r is None:
            self.oblige(st, False, "null dereference (" + what + ")", "safety")
            raise PathEnd()
        if st.freed.get(r.id):
            if r.kind != "fam":
                self.oblige(st, False, f"use after free of {r.name}", "safety"); raise PathEnd()
        if getattr(r, "maybe_null", None) is not None and self.safety:
            self.oblige(st, Not(r.maybe_null), "null dereference (" + what + ")", "safety")
        if r.kind == "obj":
            if not p.off.isconst():
                # symbolic offset into an embedded array
                for (a, b, sr) in getattr(r, "embedded", ()):
                    if a <= p.off.c < b:
                        return self.addr(st, Ptr(sr, p.off.sub(Lin(a))), size, what)
                raise Unsupported(f"symbolic offset into object {r.name}")
            s = self.sub_region(r, p.off.c)
            if s: return self.addr(st, Ptr(s[0], Lin(p.off.c - s[1])), size, what)
            return r, p.off.c, None
        if r.kind == "fam":
            if not p.off.isconst(): raise Unsupported("symbolic offset into family object")
            if self.safety: self.oblige(st, Not(eq(p.key, 0)), "null dereference (" + what + ")", "safety")
            return r, p.off.c, p.key
        if r.stride is None: r.stride = size
        q = p.off.divmod(r.stride)
        if q is None:
            raise Unsupported(f"unaligned access into {r.name} (stride {r.stride}, offset {p.off.expr()})")
        idx, o = q
        if o + size > r.stride: raise Unsupported(f"access of {size} bytes at +{o} in elements of {r.stride} bytes of {r.name}")
        nb = r.nbytes
        if self.safety and nb is None and getattr(r, "vecobj", None) is not None:
            vo, vf = r.vecobj
            ep = st.mem.get((vo.id, vf + 8)) or vo.init.get(vf + 8)
            if isinstance(ep, Ptr) and ep.r is r: nb = ep.off
        if self.safety and nb is not None:
            n = nb.divmod(r.stride)
            hi = lt(idx, n[0]) if n and n[1] == 0 else le(add(mul(r.stride, idx), o + size), nb.expr())
            self.oblige(st, And(ge(idx, 0), hi), f"in-bounds {what} of {r.name}", "safety")
        return r, o, idx

    def slot_default(self, st, r, o, ty):
        if o in r.init: return r.init[o]
        if r.lazy:
            v = r.lazy(r, o, ty)
            if v is not None: r.init[o] = v; return v
        nm = f"{r.name}.{o}"
        if r.zero:
            v = self.zero_of(ty)
        elif ty.k == "i":
            v = fresh(nm, z3.BoolSort()) if ty.a == 1 else self.fresh_int(ty.a, nm, signed=o in r.signed)
        elif ty.k in FPS: v = FV(ty.k, fresh(nm, FPS[ty.k]))
        elif ty.k == "ptr" and r.name in ("@stdout", "@stderr", "@stdin"): v = Ptr(Region("standard stream", "obj"))
        else: raise Unsupported(f"uninitialised {ty} slot {nm}")
        r.init[o] = v
        return v
    def zero_of(self, ty):
        if ty.k == "i": return False if ty.a == 1 else self.const(ty.a, 0)
        if ty.k == "ptr": return NULL
        if ty.k in FPS: return FV(ty.k, fpval(0, ty.k))
        raise Unsupported("zero of " + repr(ty))

    def tysize(self, func, ty): return func.mod.size(ty)

    def arr_of(self, st, r, o, sort=None):
        k = (r.id, o)
        if k in st.mem: return st.mem[k]
        if o not in r.init:
            r.init[o] = z3.K(z3.IntSort(), z3.IntVal(0)) if r.zero else fresh(f"{r.name}@{o}", sort if sort is not None else int_arr())
        return r.init[o]

    def load(self, st, func, ty, p):
        rt = func.mod.resolve(ty) if ty.k == "named" else ty
        if rt.k == "struct":
            offs = func.mod.layout(rt)[2]
            return AV([self.load(st, func, e, Ptr(p.r, p.off.add(Lin(o)), p.key)) for e, o in zip(rt.a, offs)])
        size = self.tysize(func, ty)
        if size == 8 and ty.k == "i" and self.halves(func, p):
            lo = self.load(st, func, Ty("i", 32), p); hi = self.load(st, func, Ty("i", 32), Ptr(p.r, p.off.add(Lin(4)), p.key))
            return IV(64, add(mul(self.U(st, hi), 1 << 32), self.U(st, lo)), 0, (1 << 64) - 1, parts=(lo, hi))
        r, o, idx = self.addr(st, p, size, "load")
        if r.kind == "obj":
            w = r.slotw.get(o)
            v = st.mem.get((r.id, o))
            if v is POISON: raise Unsupported(f"value of {r.name}+{o} differs between iterations")
            if v is None:
                ov = self.overlap(r, o, size)
                if ov: raise Unsupported(f"overlapping access {r.name}+{o}")
                v = self.slot_default(st, r, o, ty)
                r.slotw.setdefault(o, size)
                if not self.bv and isinstance(v, IV) and not isc(v.e): st.assume(z3.And(v.e >= v.lo, v.e <= v.hi)) if v.lo is not None else None
            elif w is not None and w != size: raise Unsupported(f"mixed-size access {r.name}+{o}: {w} then {size}")
            if ty.k == "i" and ty.a == 1 and isinstance(v, (IV, BV)): return self.cast(st, "trunc", Ty("i", 8), v, ty)
            if isinstance(v, IV) and ty.k == "ptr": raise Unsupported("integer slot loaded as pointer")
            if ty.k == "i" and ty.a > 1 and isinstance(v, (bool, z3.BoolRef)): v = self.zext_bool(v, ty.a)
            if isinstance(v, FV) and v.k != ty.k: raise Unsupported("float/int punning")
            return v
        if self.bv: raise Unsupported("array memory in bit-vector mode")
        w = r.slotw.setdefault(o, size)
        if w != size: raise Unsupported(f"mixed-size access {r.name}@{o}: {w} then {size}")
        if ty.k == "ptr":
            fam = r.ptrfam.get(o)
            if fam is None: raise Unsupported(f"pointer load from {r.name}@{o} without a declared target")
            if fam.kind == "fam": return Ptr(fam, Lin(0), self.sel(self.arr_of(st, r, o), idx))
            raise Unsupported("ptr target")
        if ty.k in FPS: 
            a = self.arr_of(st, r, o, z3.ArraySort(z3.IntSort(), FPS[ty.k]))
            return FV(ty.k, z3.Select(a, ze(idx)))
        if ty.k != "i": raise Unsupported("load " + repr(ty))
        if getattr(r, "bytes", None) is not None and isc(idx) and 0 <= idx < len(r.bytes) and (r.id, o) not in st.mem and r.stride == 1:
            return self.const(8, r.bytes[idx])
        a = self.arr_of(st, r, o)
        e = self.sel(a, idx)
        bits = ty.a if ty.a > 1 else 8
        if o in r.signed: lo, hi = -(1 << (bits-1)), (1 << (bits-1)) - 1
        else: lo, hi = 0, (1 << bits) - 1
        if getattr(r, "ranges", None) and o in r.ranges: lo, hi = r.ranges[o]
        if not isc(e): st.assume(z3.And(e >= lo, e <= hi))
        v = IV(bits, e, lo, hi)
        if ty.a == 1: return self.cast(st, "trunc", Ty("i", 8), v, ty)
        return v
    def sel(self, a, idx):
        """read-over-write with constant-distance simplification"""
        i = ze(idx)
        while z3.is_store(a):
            j = a.arg(1)
            if i.eq(j): return fold(a.arg(2))
            d = z3.simplify(i - j)
            if z3.is_int_value(d):
                if d.as_long() == 0: return fold(a.arg(2))
                a = a.arg(0); continue
            break
        if z3.is_const_array(a) and z3.is_int_value(a.arg(0)): return a.arg(0).as_long()
        return z3.Select(a, i)

    def halves(self, func, p):
        """a 64-bit access to two 32-bit fields (a pair of ids passed by value)"""
        r = p.r if isinstance(p, Ptr) else None
        if r is None or self.bv: return False
        if r.kind == "obj" and p.off.isconst():
            o = p.off.c
            if r.slotw.get(o) is not None: return r.slotw[o] == 4 and r.slotw.get(o + 4) in (4, None)
            if r.ty is None or r.mod is None: return False
            return (o, 4) in self.leaves(r) and (o + 4, 4) in self.leaves(r)
        if r.kind == "arr" and r.stride and r.stride >= 8:
            q = p.off.divmod(r.stride)
            return bool(q) and r.slotw.get(q[1]) == 4 and r.slotw.get(q[1] + 4) == 4
        return False
    def leaves(self, r):
        l = getattr(r, "_leaves", None)
        if l is None:
            l = set()
            def go(t, o):
                try: t = r.mod.resolve(t)
                except Unsupported: return
                if t.k == "struct":
                    for e, x in zip(t.a, r.mod.layout(t)[2]): go(e, o + x)
                else:
                    try: l.add((o, r.mod.size(t)))
                    except Unsupported: pass
            go(r.ty, 0); r._leaves = l
        return l
    def overlap(self, r, o, size):
        for o2, s2 in r.slotw.items():
            if o2 != o and o2 < o + size and o < o2 + s2: return True
        return False

    def store(self, st, func, ty, v, p):
        if isinstance(v, AV):
            rt = func.mod.resolve(ty); offs = func.mod.layout(rt)[2]
            for e, o, x in zip(rt.a, offs, v.v): self.store(st, func, e, x, Ptr(p.r, p.off.add(Lin(o)), p.key))
            return
        size = self.tysize(func, ty)
        if size == 8 and isinstance(v, IV) and self.halves(func, p):
            if v.parts: lo, hi = v.parts
            elif isc(v.e): lo, hi = self.const(32, v.e % (1 << 32)), self.const(32, (v.e >> 32) % (1 << 32))
            else:
                u = self.U(st, v); lo, hi = IV(32, u % (1 << 32), 0, (1 << 32) - 1), IV(32, u / (1 << 32), 0, (1 << 32) - 1)
            self.store(st, func, Ty("i", 32), lo, p); self.store(st, func, Ty("i", 32), hi, Ptr(p.r, p.off.add(Lin(4)), p.key)); return
        r, o, idx = self.addr(st, p, size, "store")
        if getattr(r, "const", False): raise Unsupported("store to constant")
        if r.kind == "obj":
            w = r.slotw.setdefault(o, size)
            if w != size:
                raise Unsupported(f"mixed-size access {r.name}+{o}: {w} then {size}")
            if self.overlap(r, o, size): raise Unsupported(f"overlapping access {r.name}+{o}")
            if isinstance(v, IV) and not isc(v.e) and not (v.lo is not None and (v.lo >= 0 and v.hi < 1 << v.w or v.lo >= -(1 << (v.w-1)) and v.hi < 1 << (v.w-1))):
                e = self.norm_store(st, v, o in r.signed)
                v = IV(v.w, e, *((-(1 << (v.w-1)), (1 << (v.w-1)) - 1) if o in r.signed else (0, (1 << v.w) - 1)))
            st.mem[(r.id, o)] = v
            st.writes.append((r, o, None, v))
            return
        if self.bv: raise Unsupported("array memory in bit-vector mode")
        w = r.slotw.setdefault(o, size)
        if w != size: raise Unsupported(f"mixed-size access {r.name}@{o}: {w} then {size}")
        if isinstance(v, Ptr):
            fam = r.ptrfam.get(o)
            if v.r is None: e = 0
            elif fam is not None and v.r is fam and v.off.isconst() and v.off.c == 0: e = v.key
            else: raise Unsupported(f"pointer store into {r.name}@{o}: {v}")
            a = self.arr_of(st, r, o)
        elif isinstance(v, FV):
            a = self.arr_of(st, r, o, z3.ArraySort(z3.IntSort(), FPS[v.k])); e = v.e
        elif isinstance(v, (bool, z3.BoolRef)):
            a = self.arr_of(st, r, o); e = If(v, 1, 0)
        elif isinstance(v, IV):
            a = self.arr_of(st, r, o); e = self.norm_store(st, v, o in r.signed)
        else: raise Unsupported("array store of " + repr(v))
        st.mem[(r.id, o)] = z3.Store(a, ze(idx), ze(e))
        st.writes.append((r, o, idx, e))

    def new_arr(self, st, name, nbytes, heap=None, stride=None, zero=False):
        r = Region(name, "arr", stride=stride, nbytes=nbytes if isinstance(nbytes, Lin) else Lin.of(nbytes), heap=heap)
        r.zero = zero
        return r

    # ------------------------------------------------------------ execution
    def run_function(self, st, func, args):
        """all normal exits: [(state, return value)]"""
        func.parse()
        if st.depth > 30: raise Unsupported("inlining too deep")
        env = {}
        for (nm, t, s), v in zip(func.params, args): env[nm] = v
        st.depth += 1
        outs = self.run_blocks(func, st, env, func.entry, None, None, None)
        res = []
        for o in outs:
            if o.k != "ret": raise Unsupported("unexpected outcome")
            o.st.depth -= 1
            for k in [k for k in o.st.mem if k[0] in self.allocas.get((func.name, o.st.depth), ())]: del o.st.mem[k]
            res.append((o.st, o.val))
        return res

    def run_blocks(self, func, st, env, blk, prev, stop, body):
        outs = []
        pend = {}                       # block -> [(st, env, prev, phis done)]
        def push(st, env, b, prev, first=False):
            isloop = b in func.loops and not (first and b == stop)
            if first and b == stop:
                pend.setdefault(b, []).append((st, env, prev, True)); return
            if not isloop:
                env = dict(env); self.do_phis(func, st, env, b, prev)
                pend.setdefault(b, []).append((st, env, prev, True))
            else: pend.setdefault(b, []).append((st, env, prev, False))
        push(st, env, blk, prev, True)
        while pend:
            b = min(pend, key=lambda x: func.rpo.get(x, 1 << 30))
            items = pend.pop(b)
            if len(items) > 1: items = self.merge(func, b, items)
            for st, env, prev, done in items:
                self.check_deadline()
                if not done:
                    for o in self.do_loop(func, st, env, b, prev):
                        if o.k == "exit":
                            if stop is not None and o.blk == stop: outs.append(Outcome("back", o.st, o.env, o.blk, o.prev))
                            elif body is not None and o.blk not in body: outs.append(o)
                            else: push(o.st, o.env, o.blk, o.prev)
                        else: outs.append(o)
                    continue
                for (s2, e2, nb, val) in self.run_block(func, st, env, b):
                    if nb is None: outs.append(Outcome("ret", s2, e2, val=val)); continue
                    if nb == stop: outs.append(Outcome("back", s2, e2, nb, b))
                    elif body is not None and nb not in body: outs.append(Outcome("exit", s2, e2, nb, b))
                    else: push(s2, e2, nb, b)
                    self.npaths += 1
                    if self.npaths > self.max_paths * 50: raise Unsupported("too many paths")
        return outs

    def merge(self, func, b, items):
        """join states that differ only in their path condition"""
        live = func.livein.get(b)
        if live is None: return items
        out = []
        for it in items:
            st, env, prev, done = it
            for j, (st2, env2, prev2, done2, extra) in enumerate(out):
                if done2 != done or st.freed != st2.freed or st.notes != st2.notes or st.depth != st2.depth: continue
                if st.mem.keys() != st2.mem.keys(): continue
                if not all(same(v, st2.mem[k]) for k, v in st.mem.items()): continue
                names = live
                if not done:
                    p1, p2 = {}, {}
                    for ins in func.blocks[b]:
                        if ins.op != "phi": break
                        for v, pb in ins.a[1]:
                            if pb == prev: p1[ins.res] = self.val(func, env, ins.a[0], v)
                            if pb == prev2: p2[ins.res] = self.val(func, env2, ins.a[0], v)
                    if p1.keys() != p2.keys() or not all(same(v, p2[k]) for k, v in p1.items()): continue
                    names = live - set(p1)
                if not all(same(env.get(n), env2.get(n)) for n in names): continue
                ids = {(c if isinstance(c, bool) else c.get_id()) for c in st.pc}
                rest2 = [c for c in st2.pc if (c if isinstance(c, bool) else c.get_id()) not in ids]
                ids2 = {(c if isinstance(c, bool) else c.get_id()) for c in st2.pc}
                rest1 = [c for c in st.pc if (c if isinstance(c, bool) else c.get_id()) not in ids2]
                if len(rest1) + len(rest2) > 60 or any(has_quant(c) for c in rest1 + rest2): continue
                common = [c for c in st2.pc if (c if isinstance(c, bool) else c.get_id()) in ids]
                st2.pc = []; st2.seen = set()
                for c in common: st2.assume(c)
                st2.assume(Or(And(*rest1) if rest1 else True, And(*rest2) if rest2 else True))
                break
            else: out.append((st, env, prev, done, None))
        return [x[:4] for x in out]

    def do_phis(self, func, st, env, b, prev):
        vals = []
        for ins in func.blocks[b]:
            if ins.op != "phi": break
            for v, pb in ins.a[1]:
                if pb == prev:
                    vals.append((ins.res, self.val(func, env, ins.a[0], v))); break
            else: raise Unsupported("phi without incoming edge")
        for k, v in vals: env[k] = v

    def run_block(self, func, st, env, b):
        """[(state, env, next block or None, ret value)]"""
        live = [(st, env)]
        instrs = func.blocks[b]
        for ins in instrs:
            if ins.op == "phi": continue
            nxt = []
            for st, env in live:
                if ins.line: self.line = ins.line
                try:
                    r = self.step(func, st, env, ins)
                except PathEnd:
                    continue
                if r is None: nxt.append((st, env)); continue
                kind = r[0]
                if kind == "multi":
                    for s2, v in r[1]:
                        e2 = dict(env)
                        if ins.res is not None: e2[ins.res] = v
                        nxt.append((s2, e2))
                elif kind == "invoke":
                    rl = []
                    for s2, v in r[1]:
                        e2 = dict(env)
                        if r[2].res is not None: e2[r[2].res] = v
                        rl.append((s2, e2, r[2].a[3], None))
                    nxt.append(rl)
                elif kind == "term":
                    # terminator: r[1] list of (st, next, val)
                    return_list = []
                    return_list.extend((s2, env if len(r[1]) == 1 else dict(env), nb, v) for s2, nb, v in r[1])
                    nxt.append(return_list)
            live = nxt
        out = []
        for x in live:
            if isinstance(x, list): out.extend(x)
            else: raise Unsupported("block without terminator")
        return out

    def branch(self, st, c):
        """[(state, bool)] for the feasible outcomes of condition c"""
        if isinstance(c, bool): return [(st, c)]
        c = z3.simplify(c) if False else c
        res = []
        for want in (True, False):
            cc = c if want else Not(c)
            s2 = st.clone(); s2.assume(cc)
            if feasible(s2.pc): res.append((s2, want))
        return res

    def step(self, func, st, env, ins):
        op, a = ins.op, ins.a
        V = lambda t, c: self.val(func, env, t, c)
        if op in BIN:
            env[ins.res] = self.binop(st, op, a[0], V(a[0], a[1]), V(a[0], a[2])); return
        if op in CAST:
            env[ins.res] = self.cast(st, op, a[0], V(a[0], a[1]), a[2]); return
        if op == "icmp":
            env[ins.res] = self.icmp(st, a[0], a[1], V(a[1], a[2]), V(a[1], a[3])); return
        if op == "fcmp":
            env[ins.res] = self.fcmp(st, a[0], V(a[1], a[2]), V(a[1], a[3])); return
        if op == "fneg":
            v = V(a[0], a[1]); env[ins.res] = FV(v.k, -v.e if v.e.sort() == z3.IntSort() else z3.fpNeg(v.e)); return
        if op == "alloca":
            n0 = Region.n
            self.do_alloca(st, func, env, ins)
            self.allocas.setdefault((func.name, st.depth - 1), set()).update(range(n0 + 1, Region.n + 1))
            return
        if op == "load":
            if a[2]: self.interfere(st, V(Ty("ptr"), a[1]))
            env[ins.res] = self.load(st, func, a[0], V(Ty("ptr"), a[1])); return
        if op == "store":
            self.store(st, func, a[0], V(a[0], a[1]), V(Ty("ptr"), a[2])); return
        if op == "getelementptr":
            env[ins.res] = self.gep(st, func, a[0], V(Ty("ptr"), a[1]), [(t, V(t, v)) for t, v in a[2]]); return
        if op == "select":
            c = V(Ty("i", 1), a[0]); x, y = V(a[1], a[2]), V(a[1], a[3])
            if isinstance(c, bool): env[ins.res] = x if c else y; return
            if isinstance(x, IV) and isinstance(y, IV):
                lo = None if x.lo is None or y.lo is None else min(x.lo, y.lo); hi = None if lo is None else max(x.hi, y.hi)
                bb = None
                if isc(x.e) and isc(y.e) and (x.e, y.e) == (1, 0): bb = c
                env[ins.res] = IV(x.w, If(c, x.e, y.e), lo, hi, None, bb); return
            if isinstance(x, BV): env[ins.res] = BV(x.w, z3.If(c, x.e, y.e)); return
            if isinstance(x, FV): env[ins.res] = FV(x.k, z3.If(c, x.e, y.e)); return
            if isinstance(x, (bool, z3.BoolRef)): env[ins.res] = If(c, ze(x), ze(y)) if not (isinstance(x, bool) and isinstance(y, bool)) else (c if x else Not(c)) if x != y else x; return
            return ("multi", [(s2, x if w else y) for s2, w in self.branch(st, c)])
        if op == "freeze": env[ins.res] = V(a[0], a[1]); return
        if op == "extractvalue":
            v = V(a[0], a[1])
            for i in a[2]: v = v.v[i]
            env[ins.res] = v; return
        if op == "insertvalue":
            v = V(a[0], a[1]); nv = AV(list(v.v))
            if len(a[4]) != 1: raise Unsupported("nested insertvalue")
            nv.v[a[4][0]] = V(a[2], a[3]); env[ins.res] = nv; return
        if op == "br":
            if a[0] is None: return ("term", [(st, a[1], None)])
            c = V(Ty("i", 1), a[0])
            return ("term", [(s2, a[1] if w else a[2], None) for s2, w in self.branch(st, self.bool_of(st, c))])
        if op == "switch":
            v = V(a[0], a[1]); res = []; neg = []
            for cv, lb in a[3]:
                c = self.icmp(st, "eq", a[0], v, self.const(a[0].a, cv)) if a[0].a > 1 else None
                s2 = st.clone(); s2.assume(c)
                for n in neg: s2.assume(n)
                if feasible(s2.pc): res.append((s2, lb, None))
                neg.append(Not(c))
                if c is True: break
            s2 = st.clone()
            for n in neg: s2.assume(n)
            if feasible(s2.pc): res.append((s2, a[2], None))
            return ("term", res)
        if op == "ret":
            return ("term", [(st, None, None if a[1] is None else V(a[0], a[1]))])
        if op == "unreachable":
            # reached only after a noreturn call, which has been reported where it was made
            raise PathEnd()
        if op in ("call", "invoke"):
            res = self.call(func, st, env, ins)
            if op == "invoke":
                return ("invoke", res, ins)
            return ("multi", res)
        if op == "atomicrmw":
            o, pc, t, vc = a; p = V(Ty("ptr"), pc); v = V(t, vc); self.interfere(st, p)
            old = self.load(st, func, t, p)
            if o == "xchg": nv = v
            elif o in ("add", "sub", "and", "or", "xor"): nv = self.binop(st, o, t, old, v)
            else: raise Unsupported("atomicrmw " + o)
            self.store(st, func, t, nv, p); env[ins.res] = old
            self.on_atomic(st, p, old, nv)
            return
        if op == "cmpxchg":
            pc, t, xc, yc = a; p = V(Ty("ptr"), pc); x, y = V(t, xc), V(t, yc); self.interfere(st, p)
            old = self.load(st, func, t, p)
            c = self.icmp(st, "eq", t, old, x)
            res = []
            for s2, w in self.branch(st, c):
                if w:
                    self.store(s2, func, t, y, p); self.on_atomic(s2, p, old, y)
                res.append((s2, AV([old, w])))
            return ("multi", res)
        if op == "fence": return
        if op in ("landingpad", "resume"): raise PathEnd()
        raise Unsupported("op " + op)
    def do_alloca(self, st, func, env, ins):
        t, cnt = ins.a
        V = lambda t, c: self.val(func, env, t, c)
        if cnt is not None and cnt[1] != ("i", 1):
            n = V(cnt[0], cnt[1]); sz = func.mod.size(t)
            r = self.new_arr(st, "alloca." + ins.res, Lin.of(self.S(st, n)).scale(sz), stride=sz)
            env[ins.res] = Ptr(r); return
        env[ins.res] = Ptr(self.obj_region(func.mod, t, ins.res))
    def interfere(self, st, p):
        """what other threads may have done to an atomic variable before this access (a contract says)"""
        f = getattr(getattr(self, "case", None), "interfere", None)
        if f: f(self, st, p)
    def on_atomic(self, st, p, old, new):
        f = getattr(getattr(self, "case", None), "stepped", None)
        if f: f(self, st, p, old, new)
    def obj_region(self, mod, t, name, heap=None):
        rt = mod.resolve(t)
        if rt.k == "arr":
            r = Region(name, "arr", stride=mod.size(rt.b), nbytes=Lin(mod.size(rt)), mod=mod, ty=t, heap=heap)
            return r
        r = Region(name, "obj", mod=mod, ty=t, heap=heap)
        r.embedded = []
        self.embed(r, mod, rt, 0)
        return r
    def embed(self, r, mod, rt, base):
        if rt.k != "struct": return
        offs = mod.layout(rt)[2]
        for e, o in zip(rt.a, offs):
            try: re_ = mod.resolve(e)
            except Unsupported: continue
            if re_.k == "arr" and not (re_.b.k == "i" and re_.b.a == 8 and re_.a <= 16):
                sz = mod.size(re_)
                if sz == 0: continue
                sr = Region(f"{r.name}.{base+o}[]", "arr", stride=mod.size(re_.b), nbytes=Lin(sz), mod=mod, ty=e)
                r.embedded.append((base + o, base + o + sz, sr))
            elif re_.k == "struct": self.embed(r, mod, re_, base + o)

    # ------------------------------------------------------------ calls
    def call(self, func, st, env, ins):
        rt, callee, args, _, _ = ins.a
        if callee[0] == "l":
            f = env.get(callee[1])
            if isinstance(f, FnPtr): name = f.name
            else: raise Unsupported("indirect call")
        elif callee[0] == "g": name = callee[1]
        else: raise Unsupported("indirect call")
        for m in self.mods:
            if name in m.aliases: name = m.aliases[name]; break
        av = []
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime") or name.startswith("llvm.assume") or name.startswith("llvm.experimental") or name == "llvm.donothing":
            return [(st, None)]
        for t, c in args: av.append(self.val(func, env, t, c))
        return self.call_named(func, st, name, av, rt, [t for t, _ in args])

    def call_named(self, func, st, name, av, rt, tys=None):
        dn = self.demangle(name)
        c = self.contracts.get(dn)
        if c is not None:
            return c.apply(self, func, st, av, rt)
        for rx, fn in self.models:
            if rx.match(dn):
                r = fn(self, func, st, dn, av, rt)
                if r is NotImplemented: continue
                self.modelled.add(dn)
                return r
        f = self.find(name)
        if f is not None:
            self.inlined.add(dn)
            save = self.line
            r = self.run_function(st, f, av)
            self.line = save
            return r
        raise Unsupported("external function " + dn)

    # ------------------------------------------------------------ loops
    def do_loop(self, func, st, env, h, prev):
        from loops import do_loop
        return do_loop(self, func, st, env, h, prev)

