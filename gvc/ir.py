"""Reader for textual LLVM IR (LLVM 18, opaque pointers).  Function bodies are parsed on demand."""
import re

class Unsupported(Exception):
    """A construct the verifier has no semantics for: the function becomes 'undecided'."""

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b", "_sz")
    # k: 'i' (a=width) 'ptr' 'float' 'double' 'x86_fp80' 'void' 'struct'(a=tuple, b=packed) 'named'(a=name)
    #    'arr'(a=n,b=ty) 'vec'(a=n,b=ty) 'opaque' 'label' 'metadata' 'token' 'fn'
    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b, self._sz = k, a, b, None
    def __repr__(self):
        if self.k == 'i': return f"i{self.a}"
        if self.k == 'named': return f"%{self.a}"
        if self.k == 'arr': return f"[{self.a} x {self.b}]"
        if self.k == 'struct': return "{" + ",".join(map(repr, self.a)) + "}"
        return self.k
    def __eq__(self, o): return isinstance(o, Ty) and (self.k, self.a, self.b) == (o.k, o.a, o.b)
    def __hash__(self): return hash((self.k, self.a, self.b))

TOK = re.compile(r'''\s*(?:
   (?P<name>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<md>![a-zA-Z0-9_.]*)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:[eE][-+]?[0-9]+)?)?)
 | (?P<attr>\#[0-9]+)
 | (?P<ell>\.\.\.)
 | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)
 | (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            raise Unsupported("token: " + s[i:i+40])
        i = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out

def unq(nm):
    nm = nm[1:]
    return nm[1:-1] if nm.startswith('"') else nm

PARAM_ATTRS = set("""noundef nonnull zeroext signext noalias nocapture returned immarg inreg writable readonly
 readnone writeonly nest swiftself swifterror dead_on_unwind nofree allocalign allocptr""".split())
PARAM_ATTRS_ARG = set("dereferenceable dereferenceable_or_null sret byval byref inalloca elementtype nofpclass".split())

class P:
    """token cursor"""
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, k=0):
        return self.t[self.i+k][1] if self.i+k < len(self.t) else None
    def kind(self, k=0):
        return self.t[self.i+k][0] if self.i+k < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def accept(self, v):
        if self.peek() == v: self.i += 1; return True
        return False
    def expect(self, v):
        x = self.next()
        if x != v: raise Unsupported(f"parse: expected {v} got {x} in {' '.join(t[1] for t in self.t)[:160]}")
    def skip_parens(self):
        self.expect("("); d = 1
        while d:
            v = self.next()
            if v == "(": d += 1
            elif v == ")": d -= 1

    def type(self):
        v = self.next()
        if v == "void": t = Ty("void")
        elif v == "ptr":
            if self.peek() == "addrspace": self.next(); self.skip_parens()
            t = Ty("ptr")
        elif re.fullmatch(r"i\d+", v): t = Ty("i", int(v[1:]))
        elif v in ("float", "double", "x86_fp80", "half", "fp128", "label", "metadata", "token", "opaque"): t = Ty(v)
        elif v == "{" or (v == "<" and self.peek() == "{"):
            packed = v == "<"
            if packed: self.next()
            el = []
            while not self.accept("}"):
                el.append(self.type()); self.accept(",")
            if packed: self.expect(">")
            t = Ty("struct", tuple(el), packed)
        elif v == "[":
            n = int(self.next()); self.expect("x"); e = self.type(); self.expect("]"); t = Ty("arr", n, e)
        elif v == "<":
            n = int(self.next()); self.expect("x"); e = self.type(); self.expect(">"); t = Ty("vec", n, e)
        elif v[0] == "%": t = Ty("named", unq(v))
        else: raise Unsupported("type " + v)
        while self.peek() == "(":      # function type
            self.next(); ps = []
            while not self.accept(")"):
                if self.accept("..."): continue
                ps.append(self.type()); self.accept(",")
            t = Ty("fn", t, tuple(ps))
        return t

    def attrs(self):
        sret = None
        while True:
            v = self.peek()
            if v in PARAM_ATTRS: self.next()
            elif v in PARAM_ATTRS_ARG:
                self.next()
                if v in ("sret", "byval"):
                    self.expect("("); t = self.type(); self.expect(")"); sret = (v, t)
                else: self.skip_parens()
            elif v == "align":
                self.next()
                if self.peek() == "(": self.skip_parens()
                else: self.next()
            elif v == "range": self.next(); self.skip_parens()
            else: return sret

    def value(self, ty):
        k = self.kind(); v = self.next()
        if k == "name":
            return ("l", unq(v)) if v[0] == "%" else ("g", unq(v))
        if k == "num":
            if ty.k in ("float", "double"): return ("f", v, ty)
            return ("i", int(v))
        if k == "hex": return ("f", v, ty)
        if v == "true": return ("i", 1)
        if v == "false": return ("i", 0)
        if v == "null": return ("null",)
        if v in ("undef", "poison"): return ("undef", ty)
        if v == "zeroinitializer": return ("zero", ty)
        if v == "none": return ("undef", ty)
        if v == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                if self.next() == "inrange": self.skip_parens()
            self.expect("("); st = self.type(); self.expect(",")
            ops = []
            while True:
                while self.peek() == "inrange": self.next()
                t = self.type(); ops.append((t, self.value(t)))
                if not self.accept(","): break
            self.expect(")")
            return ("cgep", st, ops)
        if v in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast", "trunc"):
            self.expect("("); t = self.type(); x = self.value(t); self.expect("to"); t2 = self.type(); self.expect(")")
            return ("ccast", v, t, x, t2)
        if v in ("sub", "add"):
            while self.peek() in ("nsw", "nuw"): self.next()
            self.expect("("); t = self.type(); a = self.value(t); self.expect(","); t2 = self.type(); b = self.value(t2); self.expect(")")
            return ("cbin", v, t, a, b)
        if k == "cstr": return ("cstr", v)
        if v in ("{", "[", "<"):
            close = {"{": "}", "[": "]", "<": ">"}[v]
            packed = False
            if v == "<" and self.peek() == "{": self.next(); close = "}"; packed = True
            el = []
            while self.peek() != close:
                t = self.type(); el.append((t, self.value(t))); self.accept(",")
            self.next()
            if packed: self.expect(">")
            return ("agg", ty, el)
        if v == "asm":
            raise Unsupported("inline asm")
        raise Unsupported("value " + str(v))

    def tval(self):
        t = self.type(); self.attrs(); return t, self.value(t)

class Ins:
    __slots__ = ("op", "res", "a", "line", "txt")
    def __init__(self, op, res, a, line, txt): self.op, self.res, self.a, self.line, self.txt = op, res, a, line, txt
    def __repr__(self): return self.txt

BIN = set("add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem".split())
CAST = set("zext sext trunc ptrtoint inttoptr bitcast sitofp uitofp fptosi fptoui fpext fptrunc addrspacecast".split())

class Func:
    def __init__(self, mod, header, body_lines):
        self.mod = mod; self.header = header; self.lines = body_lines
        self.parsed = False
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', header)
        self.name = unq("@" + m.group(1))
        self.file = None
        dm = re.search(r"!dbg !(\d+)", header)
        self.dbg = int(dm.group(1)) if dm else None
        p = P(tokenize(header[m.end()-1:].split(" comdat")[0]))
        p.expect("(")
        self.params = []; self.vararg = False
        while not p.accept(")"):
            if p.accept("..."): self.vararg = True; continue
            t = p.type(); s = p.attrs()
            nm = None
            if p.kind() == "name": nm = unq(p.next())
            else: nm = str(len(self.params))
            self.params.append((nm, t, s)); p.accept(",")
        pre = header[:m.start()]
        toks = P(tokenize(pre))
        # return type: parse from the right-most position where a type starts
        words = toks.t
        self.ret = None
        skip = set("define declare dso_local internal linkonce_odr weak_odr weak private available_externally hidden protected default local_unnamed_addr unnamed_addr fastcc ccc coldcc external dso_preemptable mustprogress noundef nonnull zeroext signext noalias inreg linkonce".split())
        i = 0
        while i < len(words):
            if words[i][1] in skip: i += 1; continue
            if words[i][1] in PARAM_ATTRS_ARG:
                q = P(words); q.i = i + 1; q.skip_parens(); i = q.i; continue
            if words[i][1] == "align": i += 2; continue
            break
        q = P(words); q.i = i
        self.ret = q.type()

    def parse(self):
        if self.parsed: return self
        self.parsed = True
        self.blocks = {}; self.order = []
        cur = None
        buf = []
        lines = self.lines; i = 0
        first = True
        while i < len(lines):
            ln = lines[i]; i += 1
            s = ln.strip()
            if not s or s.startswith(";"): continue
            mm = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if mm:
                nm = mm.group(1)
                if nm.startswith('"'): nm = nm[1:-1]
                cur = nm; self.blocks[cur] = []; self.order.append(cur); continue
            if cur is None:
                cur = str(len(self.params)); self.blocks[cur] = []; self.order.append(cur)
            if s.startswith("switch"):
                while "]" not in lines[i-1]:
                    s += " " + lines[i].strip(); i += 1
                    
            elif " invoke " in " " + s:
                if "unwind label" not in s:
                    s += " " + lines[i].strip(); i += 1
            elif "landingpad" in s:
                while i < len(lines) and re.match(r"\s+(cleanup|catch|filter)", lines[i]):
                    s += " " + lines[i].strip(); i += 1
            self.blocks[cur].append(self._ins(s))
        self.entry = self.order[0]
        self._cfg()
        return self

    def _ins(self, s):
        txt = s
        line = None
        m = re.search(r", !dbg !(\d+)", s)
        if m: line = self.mod.dbgline(int(m.group(1)))
        # cut trailing metadata / comments
        s = re.split(r", ![a-zA-Z]", s)[0]
        s = re.sub(r"\s;.*$", "", s)
        p = P(tokenize(s))
        res = None
        if p.kind() == "name" and p.peek(1) == "=":
            res = unq(p.next()); p.next()
        op = p.next()
        if op in ("tail", "musttail", "notail"): op = p.next()
        a = None
        if op in BIN:
            while p.peek() in ("nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"): p.next()
            t = p.type(); x = p.value(t); p.expect(","); y = p.value(t); a = (t, x, y)
        elif op == "fneg":
            t = p.type(); a = (t, p.value(t))
        elif op in CAST:
            while p.peek() in ("nneg", "nuw", "nsw"): p.next()
            t = p.type(); x = p.value(t); p.expect("to"); a = (t, x, p.type())
        elif op in ("icmp", "fcmp"):
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "samesign"): p.next()
            pr = p.next(); t = p.type(); x = p.value(t); p.expect(","); y = p.value(t); a = (pr, t, x, y)
        elif op == "alloca":
            p.accept("inalloca"); t = p.type(); cnt = None
            while p.accept(","):
                if p.peek() == "align": p.next(); p.next()
                else: ct = p.type(); cnt = (ct, p.value(ct))
            a = (t, cnt)
        elif op == "load":
            at = p.accept("atomic"); p.accept("volatile"); t = p.type(); p.expect(","); pt = p.type(); a = (t, p.value(pt), at)
        elif op == "store":
            at = p.accept("atomic"); p.accept("volatile"); t = p.type(); v = p.value(t); p.expect(","); pt = p.type(); a = (t, v, p.value(pt), at)
        elif op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
            st = p.type(); p.expect(","); pt = p.type(); base = p.value(pt); idx = []
            while p.accept(","):
                t = p.type(); idx.append((t, p.value(t)))
            a = (st, base, idx)
        elif op == "phi":
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"): p.next()
            t = p.type(); inc = []
            while True:
                p.expect("["); v = p.value(t); p.expect(","); b = unq(p.next()); p.expect("]"); inc.append((v, b))
                if not p.accept(","): break
            a = (t, inc)
        elif op == "select":
            ct, c = p.tval(); p.expect(","); t, x = p.tval(); p.expect(","); t2, y = p.tval(); a = (c, t, x, y)
        elif op == "br":
            if p.peek() == "label": p.next(); a = (None, unq(p.next()))
            else:
                t = p.type(); c = p.value(t); p.expect(","); p.expect("label"); x = unq(p.next()); p.expect(","); p.expect("label"); a = (c, x, unq(p.next()))
        elif op == "switch":
            t = p.type(); v = p.value(t); p.expect(","); p.expect("label"); d = unq(p.next()); p.expect("["); cases = []
            while not p.accept("]"):
                ct = p.type(); cv = p.value(ct); p.expect(","); p.expect("label"); cases.append((cv[1], unq(p.next())))
            a = (t, v, d, cases)
        elif op == "ret":
            t = p.type(); a = (t, None if t.k == "void" else p.value(t))
        elif op == "unreachable": a = ()
        elif op in ("call", "invoke"):
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fastcc", "ccc", "coldcc"): p.next()
            while p.peek() in PARAM_ATTRS or p.peek() in PARAM_ATTRS_ARG or p.peek() in ("align", "range"): p.attrs()
            rt = p.type()
            if rt.k == "fn": rt = rt.a
            if p.peek() == "asm": raise Unsupported("inline asm")
            callee = p.value(Ty("ptr"))
            p.expect("("); args = []
            while not p.accept(")"):
                t = p.type()
                if t.k == "metadata":
                    d = 0
                    while True:
                        v = p.peek()
                        if d == 0 and v in (",", ")"): break
                        if v == "(": d += 1
                        if v == ")": d -= 1
                        p.next()
                    args.append((t, ("undef", t)))
                else:
                    p.attrs(); args.append((t, p.value(t)))
                p.accept(",")
            nrm = unw = None
            if op == "invoke":
                while p.peek() != "to": p.next()
                p.next(); p.expect("label"); nrm = unq(p.next()); p.expect("unwind"); p.expect("label"); unw = unq(p.next())
            a = (rt, callee, args, nrm, unw)
        elif op == "extractvalue":
            t = p.type(); v = p.value(t); ix = []
            while p.accept(","): ix.append(int(p.next()))
            a = (t, v, ix)
        elif op == "insertvalue":
            t = p.type(); v = p.value(t); p.expect(","); t2 = p.type(); v2 = p.value(t2); ix = []
            while p.accept(","): ix.append(int(p.next()))
            a = (t, v, t2, v2, ix)
        elif op == "atomicrmw":
            p.accept("volatile"); o = p.next(); pt = p.type(); ptr = p.value(pt); p.expect(","); t = p.type(); a = (o, ptr, t, p.value(t))
        elif op == "cmpxchg":
            p.accept("weak"); p.accept("volatile"); pt = p.type(); ptr = p.value(pt); p.expect(","); t = p.type(); x = p.value(t); p.expect(","); p.type(); y = p.value(t); a = (ptr, t, x, y)
        elif op == "freeze":
            t = p.type(); a = (t, p.value(t))
        elif op in ("fence", "landingpad", "resume"): a = ()
        else: raise Unsupported("instruction " + op)
        return Ins(op, res, a, line, txt)

    def _cfg(self):
        self.succ = {}
        for b, ins in self.blocks.items():
            t = ins[-1]
            if t.op == "br": s = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
            elif t.op == "switch": s = [t.a[2]] + [c[1] for c in t.a[3]]
            elif t.op == "invoke": s = [t.a[3]]          # unwind edges are not followed
            else: s = []
            self.succ[b] = list(dict.fromkeys(s))
        # reachable
        seen = []; st = [self.entry]; ss = set()
        while st:
            b = st.pop()
            if b in ss: continue
            ss.add(b); seen.append(b); st.extend(self.succ[b])
        reach = [b for b in self.order if b in ss]
        pred = {b: [] for b in reach}
        for b in reach:
            for s in self.succ[b]: pred[s].append(b)
        # dominators
        dom = {b: set(reach) for b in reach}; dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in reach:
                if b == self.entry: continue
                nd = set.intersection(*[dom[p] for p in pred[b]]) | {b} if pred[b] else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        self.loops = {}
        for b in reach:
            for s in self.succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(pred[x])
        # irreducible check
        color = {}
        def dfs(n):
            stack = [(n, iter(self.succ[n]))]; color[n] = 1
            while stack:
                x, it = stack[-1]
                for y in it:
                    if color.get(y, 0) == 0:
                        color[y] = 1; stack.append((y, iter(self.succ[y]))); break
                    if color[y] == 1 and y not in dom[x]: raise Unsupported("irreducible loop")
                else:
                    color[x] = 2; stack.pop()
        dfs(self.entry)
        self.pred = pred
        # reverse postorder index
        po = []; vis = set(); stack = [(self.entry, iter(self.succ[self.entry]))]; vis.add(self.entry)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in vis: vis.add(y); stack.append((y, iter(self.succ[y]))); break
            else: po.append(x); stack.pop()
        self.rpo = {b: i for i, b in enumerate(reversed(po))}
        # a block must come after every block of the loops that precede it: use max over loop bodies
        def uses(x, out):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == "l" and isinstance(x[1], str): out.add(x[1]); return
                for y in x: uses(y, out)
            elif isinstance(x, list):
                for y in x: uses(y, out)
        gen = {}; kill = {}; phiuse = {}
        for b in reach:
            g = set(); k = set()
            for ins in self.blocks[b]:
                if ins.op == "phi":
                    for v, pb in ins.a[1]:
                        u = set(); uses(v, u); phiuse.setdefault(pb, set()).update(u)
                else:
                    u = set(); uses(ins.a, u); g |= u - k
                if ins.res is not None: k.add(ins.res)
            gen[b] = g; kill[b] = k
        live = {b: set() for b in reach}; ch = True
        while ch:
            ch = False
            for b in po:
                out = set(phiuse.get(b, ()))
                for s_ in self.succ[b]: out |= live[s_]
                # phi results of a block are defined at its entry
                n_ = gen[b] | (out - kill[b])
                if n_ != live[b]: live[b] = n_; ch = True
        # live after the phis of b: what the block or its successors read
        self.livein = {}
        for b in reach:
            phis = {i.res for i in self.blocks[b] if i.op == "phi"}
            body = set(); k = set()
            for ins in self.blocks[b]:
                if ins.op == "phi": continue
                u = set(); uses(ins.a, u); body |= u - k
                if ins.res is not None: k.add(ins.res)
            out = set(phiuse.get(b, ()))
            for s_ in self.succ[b]: out |= live[s_]
            self.livein[b] = body | (out - k)
        # loop ordering by source position
        self.loop_order = [h for h in self.order if h in self.loops]

class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}; self.funcs = {}; self.decls = {}; self.globals = {}; self.md = {}
        self.aliases = {}
        self._layout = {}
        lines = open(path, errors="replace").read().split("\n")
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                j = i + 1
                while lines[j] != "}": j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                self.funcs[unq("@" + m.group(1))] = (l, i + 1, j)
                i = j + 1; continue
            if l.startswith("declare "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls[unq("@" + m.group(1))] = l
            elif l.startswith("%") and " = type " in l:
                nm, d = l.split(" = type ", 1); self.types[unq(nm)] = d
            elif l.startswith("@"):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)', l)
                if m:
                    nm = unq("@" + m.group(1))
                    if re.search(r"\balias\b", m.group(2)):
                        mm = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', m.group(2))
                        self.aliases[nm] = unq("@" + mm.group(1))
                    else: self.globals[nm] = m.group(2)
            elif l.startswith("!"):
                m = re.match(r"!(\d+) = (.*)", l)
                if m: self.md[int(m.group(1))] = m.group(2)
            i += 1
        self.lines = lines
        self._fcache = {}
    def func(self, name):
        if name in self.aliases: name = self.aliases[name]
        if name not in self.funcs: return None
        if name not in self._fcache:
            h, a, b = self.funcs[name]
            self._fcache[name] = Func(self, h, self.lines[a:b])
        return self._fcache[name]
    def dbgline(self, n):
        d = self.md.get(n, "")
        m = re.search(r"line: (\d+)", d)
        return int(m.group(1)) if m else None
    def resolve(self, t):
        while t.k == "named":
            d = self.types.get(t.a)
            if d is None: raise Unsupported("opaque type " + t.a)
            if isinstance(d, str):
                d = P(tokenize(d)).type(); self.types[t.a] = d
            t = d
        return t
    def size(self, t): return self.layout(t)[0]
    def layout(self, t):
        """(size, align, field offsets)"""
        if t in self._layout: return self._layout[t]
        r = self._lay(t); self._layout[t] = r; return r
    def _lay(self, t):
        t = self.resolve(t)
        if t.k == "i":
            b = max(1, (t.a + 7) // 8)
            s = 1
            while s < b: s *= 2
            return (s, min(s, 16), None)
        if t.k in ("ptr", "double"): return (8, 8, None)
        if t.k == "float": return (4, 4, None)
        if t.k == "x86_fp80": return (16, 16, None)
        if t.k in ("arr", "vec"):
            s, al, _ = self.layout(t.b); return (s * t.a, al, None)
        if t.k == "struct":
            off = 0; mal = 1; offs = []
            for e in t.a:
                s, al, _ = self.layout(e)
                if t.b: al = 1
                off = (off + al - 1) // al * al
                offs.append(off); off += s; mal = max(mal, al)
            return ((off + mal - 1) // mal * mal, mal, offs)
        raise Unsupported("layout of " + repr(t))
