"""Value and memory representation."""
import z3
from smt import *
from ir import Unsupported

class Lin:
    """c + sum coef*term, terms are z3 Int expressions treated as atoms"""
    __slots__ = ("c", "t")
    def __init__(self, c=0, t=None): self.c = c; self.t = t or {}
    @staticmethod
    def of(e):
        e = fold(e)
        if isc(e): return Lin(e)
        return Lin(0, {e.get_id(): (e, 1)})
    def add(self, o):
        t = dict(self.t)
        for k, (e, c) in o.t.items():
            if k in t:
                n = t[k][1] + c
                if n == 0: del t[k]
                else: t[k] = (e, n)
            else: t[k] = (e, c)
        return Lin(self.c + o.c, t)
    def scale(self, k):
        if k == 0: return Lin(0)
        return Lin(self.c * k, {i: (e, c * k) for i, (e, c) in self.t.items()})
    def sub(self, o): return self.add(o.scale(-1))
    def isconst(self): return not self.t
    def expr(self):
        r = self.c if self.c or not self.t else None
        for e, c in self.t.values():
            x = mul(c, e)
            r = x if r is None else add(r, x)
        return r
    def divmod(self, s):
        """(quotient expr, const remainder) or None"""
        if any(c % s for _, c in self.t.values()): return None
        q = Lin(self.c // s, {i: (e, c // s) for i, (e, c) in self.t.items()})
        return q.expr(), self.c % s

class IV:
    """integer of width w; e = mathematical integer congruent to it mod 2^w (python int or z3 Int), lo<=e<=hi"""
    __slots__ = ("w", "e", "lo", "hi", "lin", "b", "parts")
    def __init__(self, w, e, lo=None, hi=None, lin=None, b=None, parts=None):
        self.w = w; self.e = e; self.lin = lin; self.b = b; self.parts = parts    # parts: the two 32-bit halves when known
        if isc(e): lo = hi = e
        self.lo, self.hi = lo, hi
    def __repr__(self): return f"i{self.w}:{self.e}"

class BV:
    """bit-vector value (exact mode)"""
    __slots__ = ("w", "e")
    def __init__(self, w, e): self.w, self.e = w, e

class FV:
    __slots__ = ("k", "e")
    def __init__(self, k, e): self.k, self.e = k, e

class AV:
    """aggregate (first-class struct)"""
    __slots__ = ("v",)
    def __init__(self, v): self.v = v

class Ptr:
    """region + byte offset; key is the object key when the region is a family"""
    __slots__ = ("r", "off", "key")
    def __init__(self, r, off=None, key=None): self.r = r; self.off = off or Lin(0); self.key = key
    def __repr__(self): return f"<{self.r.name if self.r else 'null'}{'['+str(self.key)+']' if self.key is not None else ''}+{self.off.expr()}>"
NULL = Ptr(None)

class FnPtr:
    __slots__ = ("name",)
    def __init__(self, name): self.name = name

class PInt:
    """pointer converted to an integer"""
    __slots__ = ("p", "w")
    def __init__(self, p): self.p = p; self.w = 64

REGS = {}
class Region:
    """kind 'obj': one object, scalar slots addressed by constant offset.
       kind 'arr': elements of size stride, slots are SMT arrays indexed by element.
       kind 'fam': many objects of one type, slots are SMT arrays indexed by object key (0 = null)."""
    n = 0
    def __init__(self, name, kind, stride=None, nbytes=None, mod=None, ty=None, heap=None):
        Region.n += 1; self.id = Region.n; REGS[self.id] = self
        self.name, self.kind, self.stride, self.nbytes = name, kind, stride, nbytes
        self.mod, self.ty = mod, ty
        self.init = {}          # initial slot values (shared by every path)
        self.slotw = {}         # off -> byte size
        self.signed = set()     # offsets holding signed-canonical integers
        self.ptrfam = {}        # off -> family region for pointer slots
        self.heap = heap        # None | 'new' | 'new[]' | 'malloc'
        self.lazy = None        # callback(region, off, ty) for obj slots
        self.count = None       # number of elements (expr) when known
        self.zero = False
        self.pre = False        # existed before the function ran, however late the verifier created it
    def __repr__(self): return f"R{self.id}:{self.name}"

class State:
    __slots__ = ("pc", "mem", "freed", "writes", "seen", "depth", "notes")
    def __init__(self): self.pc = []; self.mem = {}; self.freed = {}; self.writes = []; self.seen = set(); self.depth = 0; self.notes = {}
    def clone(self):
        s = State.__new__(State)
        s.pc = list(self.pc); s.mem = dict(self.mem); s.freed = dict(self.freed); s.writes = list(self.writes); s.seen = set(self.seen); s.depth = self.depth; s.notes = dict(self.notes)
        return s
    def assume(self, c):
        if isinstance(c, bool):
            if not c: self.pc.append(False)
            return
        if z3.is_and(c):
            for x in c.children(): self.assume(x)
            return
        i = c.get_id()
        if i in self.seen: return
        self.seen.add(i); self.pc.append(c)
