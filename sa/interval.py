"""How far into an array of fixed size a pointer can reach: intervals of integers and of offsets into arrays.

A forward analysis of one function (static helpers are inlined).  An integer is an interval; a pointer into a
character array (a local array or an array inside a record) is the array and an interval of byte offsets.
Branch conditions narrow what they compare, through casts, sums and differences of pointers; a byte that is
read from such an array and found not to be the terminator is not the last one.  States are kept apart by what
the tracked pointers point into and by which stored pointers are null.  Writes are reported with the largest
offset they reach."""
import re, ir
from sym import Sym

INF = 1 << 62
ARR = re.compile(r'^\[(\d+) x (.*)\]$')
INT = re.compile(r'^-?\d+$')
TEXT = ("i8", "i32")
MB = 16                      # MB_CUR_MAX, in comparisons and as the most that one character takes
FROM_INDEX = re.compile(r'^frt_is_read_|^is_read_')
PURE = re.compile(r'^(str(chr|rchr|len|cmp|ncmp)|mem(cmp|cpy|set|move|chr)|llvm\..*|isw?\w+|tow?(lower|upper)|frt_(emalloc|ecalloc|erealloc)|malloc|calloc|realloc|free|'
                  r'__ctype_\w+|mbrtowc|wcrtomb|wcstombs|mbstowcs|s?n?printf|v?sn?printf|fw?printf|_setjmp|strncpy|strcpy|strcat)$')

def clamp(a): return (max(a[0], -INF), min(a[1], INF))
def join(a, b):
    if a is None or b is None: return None
    if a[0] == "p" or b[0] == "p":
        if a[0] == b[0] and a[1] == b[1]: return ("p", a[1], min(a[2], b[2]), max(a[3], b[3]))
        return None
    return (min(a[0], b[0]), max(a[1], b[1]))
def iadd(a, b):
    return (-INF if a[0] <= -INF or b[0] <= -INF else a[0] + b[0], INF if a[1] >= INF or b[1] >= INF else a[1] + b[1])
def ineg(a): return (-a[1] if a[1] < INF else -INF, -a[0] if a[0] > -INF else INF)

class Region:
    __slots__ = ("name", "size", "elem", "fn")
    def __init__(self, name, size, elem, fn): self.name, self.size, self.elem, self.fn = name, size, elem, fn
    def __repr__(self): return "%s[%s]" % (self.name, self.size)

class Result:
    def __init__(self): self.ret = None; self.rets = 0; self.writes = []; self.env = None; self.calls = []; self.stores = []; self.cells = {}

class Analysis:
    def __init__(self, P, slen, skip=lambda f: False):
        self.P = P; self.slen = slen; self.skip = skip; self.memo = {}; self.regs = {}; self.rel = {}; self.inv = {}; self.exempt = lambda n: False; self.wants = lambda i: False; self.watch = ()
    # ------------------------------------------------------------ arrays
    def reg(self, name, size, elem, fn):
        r = self.regs.get((name, fn))
        if r is None: r = self.regs[(name, fn)] = Region(name, size, elem, fn)
        return r

    def analyse(self, f, args=(), depth=0):
        """-> Result for f called with the given abstract arguments (None: anything)"""
        key = (f.qname, tuple((a[0], a[1]) + a[2:] if a is not None else None for a in args))
        if key in self.memo: return self.memo[key]
        self.memo[key] = r = Result()       # recursion: nothing known
        r2 = Run(self, f, args, depth).go()
        self.memo[key] = r2
        return r2

class Run:
    def __init__(self, A, f, args, depth):
        self.A, self.P, self.f, self.depth = A, A.P, f, depth
        self.S = Sym(A.P, f); self.args = list(args) + [None] * (len(f.args) - len(args))
        self.res = Result(); self.final = False; self.live = None
        th = {0, 1, 255, 256}
        for a in self.args:
            if a is not None and a[0] != "p" and a[0] == a[1] and abs(a[0]) < 100000: th |= {a[0], a[0] - 1}
        for i in f.insts():
            if i.op in ("icmp", "phi", "select") and i.ty != "i8":
                for o in i.ops:
                    if isinstance(o, str) and INT.match(o) and 16 < int(o) < 100000: th |= {int(o) - 1, int(o), int(o) + 1}
            m = ARR.match(str(i.ty)) if i.op in ("alloca", "getelementptr") else None
            if m: n = int(m.group(1)); z = ir.sizeof(f.mod, m.group(2)); th |= {n, n - 1, n - 2, n * z, (n - 1) * z, (n - 2) * z}
        self.th = sorted(th)
        self.toggled = set(); st = {}
        for i in f.insts():
            if i.op == "store" and i.ty == "ptr": st.setdefault(self.S.key(i.ops[1]), set()).add(i.ops[0] == "null")
        self.toggled = {k for k, v in st.items() if len(v) == 2}
        self.rel = self.relations()

    # merged values of one loop that keep step: a <= b + c in every round
    def relations(self):
        S, f = self.S, self.f; out = {}
        for h, body in S.loops().items():
            ph = [i for i in f.blocks[h].insts if i.op == "phi"]
            info = []
            for d in ph:
                init = [o for o, p in d.extra if p not in body]; back = [o for o, p in d.extra if p in body]
                ds = [self.delta(o, d.res, 0) for o in back]
                if len(init) == 1 and ds and all(x is not None for x in ds): info.append((d, init[0], min(x[0] for x in ds), max(x[1] for x in ds)))
            for a in info:
                for b in info:
                    if a is b or a[0].ty != b[0].ty: continue
                    if a[3] <= b[2] and (a[3] == b[2] or b[2] >= 0): out.setdefault(b[0].res, []).append((a[0].res, b[1], a[1], h))
        return out
    def delta(self, v, phi, n):
        """v - phi as an interval of bytes/units, when it is phi plus constants"""
        if v == phi: return (0, 0)
        d = self.f.defs.get(v)
        if d is None or n > 8: return None
        if d.op == "phi":
            r = None
            for o in d.ops:
                x = self.delta(o, phi, n + 1)
                if x is None: return None
                r = x if r is None else (min(r[0], x[0]), max(r[1], x[1]))
            return r
        if d.op in ("add", "sub") and INT.match(str(d.ops[1])):
            x = self.delta(d.ops[0], phi, n + 1); k = int(d.ops[1]) * (1 if d.op == "add" else -1)
            return (x[0] + k, x[1] + k) if x else None
        if d.op == "getelementptr" and len(d.ops) == 2 and INT.match(str(d.ops[1])) and not ARR.match(str(d.ty)):
            x = self.delta(d.ops[0], phi, n + 1); k = int(d.ops[1]) * ir.sizeof(self.f.mod, d.ty)
            return (x[0] + k, x[1] + k) if x else None
        if d.op in ("sext", "zext", "trunc", "freeze"): return self.delta(d.ops[0], phi, n + 1)
        return None

    # ------------------------------------------------------------ values
    def val(self, env, v):
        if not isinstance(v, str): return None
        if v in env: return env[v]
        if INT.match(v): return (int(v), int(v))
        if v in ("null", "false"): return (0, 0)
        if v == "true": return (1, 1)
        if v in self.f.args: return self.args[self.f.args.index(v)]
        d = self.f.defs.get(v)
        if d is not None and d.op == "alloca":
            m = ARR.match(str(d.ty))
            if m and m.group(2) in TEXT:
                return ("p", self.A.reg(self.f.varnames.get(d.res) or d.res.lstrip("%"), int(m.group(1)) * ir.sizeof(self.f.mod, m.group(2)), m.group(2), self.f.qname + d.res), 0, 0)
        return None
    def num(self, env, v):
        x = self.val(env, v)
        return x if x is not None and x[0] != "p" else (-INF, INF)

    def gep(self, env, d):
        ty = str(d.ty); b = self.val(env, d.ops[0]); mod = self.f.mod
        if ty.startswith("%") and len(d.ops) >= 3:
            fa = self.P.field_addr(self.f, d.res)
            t = self.field_type(d)
            m = ARR.match(t or "")
            if m and m.group(2) == "i8" and fa and not self.A.exempt(fa): return ("p", self.A.reg(fa, int(m.group(1)) * ir.sizeof(mod, m.group(2)), m.group(2), None), 0, 0)
            return None
        m = ARR.match(ty)
        if m:
            T = m.group(2); m2 = ARR.match(T)
            if m2 and m2.group(2) == "i8":      # a row of an array of arrays
                fa = self.P.field_addr(self.f, d.ops[0]) or d.ops[0]
                off = (0, 0)
                for o in d.ops[3:4]: z = ir.sizeof(mod, m2.group(2)); x = self.num(env, o); off = tuple(k * z if abs(k) < INF else k for k in x)
                return ("p", self.A.reg(fa, int(m2.group(1)) * ir.sizeof(mod, m2.group(2)), m2.group(2), None if "." in fa else self.f.qname), off[0], off[1])
            if T not in TEXT: return None
            if b is None or b[0] != "p":
                if not d.ops[0].startswith("@"): return None
                b = ("p", self.A.reg(d.ops[0], int(m.group(1)) * ir.sizeof(mod, T), T, None), 0, 0)
            if len(d.ops) == 3 and d.ops[1] == "0": return self.step(b, self.num(env, d.ops[2]), ir.sizeof(mod, T))
            return None
        if (b is None or b[0] != "p" or b[1].size is None) and len(d.ops) == 2:
            # text elsewhere: how far two pointers into it are apart
            if b is not None and b[0] == "p":
                r = self.step(b, self.num(env, d.ops[1]), ir.sizeof(mod, ty))
                if r[3] < INF: return r
            if INT.match(d.ops[1]): z = int(d.ops[1]) * ir.sizeof(mod, ty); return ("p", self.virt(self.S.key(d.ops[0])), z, z)
            return ("p", self.virt(self.S.key(d.res)), 0, 0)
        if b is not None and b[0] == "p" and len(d.ops) == 2 and not INT.match(d.ops[1]):
            e = self.left(env, d.ops[0], d.ops[1], d.bb.name)
            if e is not None:
                r = self.step(b, self.num(env, d.ops[1]), ir.sizeof(mod, ty))
                return ("p", r[1], min(r[2], e), min(r[3], e))
        if b is not None and b[0] == "p" and len(d.ops) == 2: return self.step(b, self.num(env, d.ops[1]), ir.sizeof(mod, ty))
        return None
    def virt(self, k):
        r = self.A.regs.get((self.f.qname, k))
        if r is None: r = self.A.regs[(self.f.qname, k)] = Region("text", None, None, self.f.qname)
        return r
    def evalp(self, env, v, n=0):
        x = self.val(env, v)
        if x is None and n < 6:
            d = self.f.defs.get(v)
            if d is not None and d.op == "getelementptr" and not str(d.ty).startswith("%"):
                b = self.evalp(env, d.ops[0], n + 1); m = ARR.match(str(d.ty))
                if b is not None and b[0] == "p" and b[1].size is not None:
                    o = d.ops[-1]; x = self.num(env, o)
                    return self.step(b, x, ir.sizeof(self.f.mod, m.group(2) if m else d.ty))
            elif d is not None and d.op == "getelementptr": return self.gep(env, d)
        return x
    def left(self, env, dst, n, blk):
        """is the length n what is left between dst and the array's end, or found to be no more: -> largest end"""
        f = self.f; S = self.S; n = S.strip(n); dst = S.strip(dst); worst = None
        def rest(v):
            d = f.defs.get(S.strip(v))
            if d is None or d.op != "sub": return None
            a, b = f.defs.get(S.strip(d.ops[0])), f.defs.get(S.strip(d.ops[1]))
            if a is None or b is None or a.op != "ptrtoint" or b.op != "ptrtoint" or S.strip(b.ops[0]) != dst: return None
            e = self.evalp(env, a.ops[0])
            return e[3] if e is not None and e[0] == "p" else None
        def fits(v, p, b):
            """dst + v <= end found on the way from p to b"""
            x, y, k = p, b, 0
            while k < 12:
                k += 1; t = f.blocks[x].term
                if t is not None and t.op == "br" and len(t.extra) == 2 and t.extra[0] != t.extra[1]:
                    d = f.defs.get(t.ops[0])
                    if d is not None and d.op == "icmp":
                        from sym import NEG
                        q = d.extra if t.extra[0] == y else NEG[d.extra]
                        for a, e, qq in ((d.ops[0], d.ops[1], ("ule", "ult", "sle", "slt")), (d.ops[1], d.ops[0], ("uge", "ugt", "sge", "sgt"))):
                            g = f.defs.get(S.strip(a)); ev = self.evalp(env, e)
                            if q in qq and g is not None and g.op == "getelementptr" and len(g.ops) == 2 and S.strip(g.ops[0]) == dst and S.strip(g.ops[1]) == v \
                               and ev is not None and ev[0] == "p": return ev[3]
                ps = f.blocks[x].preds
                if len(ps) != 1: return None
                x, y = ps[0], x
            return None
        d = f.defs.get(n)
        cases = [(S.strip(o), p) for o, p in d.extra] if d is not None and d.op == "phi" else None
        if d is not None and d.op == "select":
            return None
        if cases is None:
            e = rest(n)
            if e is None:
                ps = f.blocks[blk].preds
                e = fits(n, ps[0], blk) if len(ps) == 1 else None
            return e
        for o, p in cases:
            e = rest(o)
            if e is None: e = fits(o, p, d.bb.name)
            if e is None: return None
            worst = e if worst is None else max(worst, e)
        r = self.val(env, dst)
        return worst if r is not None and r[0] == "p" and r[1].size is not None and worst <= r[1].size else None
    def step(self, b, x, z):
        lo = -INF if x[0] <= -INF or b[2] <= -INF else b[2] + x[0] * z
        hi = INF if x[1] >= INF or b[3] >= INF else b[3] + x[1] * z
        return ("p", b[1], lo, hi)
    def field_type(self, d):
        t = str(d.ty).lstrip("%").strip('"'); mod = self.f.mod; idx = d.ops[2:]
        fl = mod.fields.get(t)
        for n, o in enumerate(idx):
            if fl is None or not INT.match(o) or int(o) >= len(fl): return None
            e = fl[int(o)][1]
            if n == len(idx) - 1: return e
            fl = mod.fields.get(e.lstrip("%").strip('"')) if e.startswith("%") else None
        return None

    # ------------------------------------------------------------ conditions
    def cond(self, env, c, taken, n=0):
        """narrow env by i1 value c being `taken`; None if that cannot be"""
        d = self.f.defs.get(c)
        if d is None or n > 8: return env
        if d.op in ("freeze", "zext", "trunc"): return self.cond(env, d.ops[0], taken, n + 1)
        if d.op == "xor" and d.ops[1] in ("true", "1", "-1"): return self.cond(env, d.ops[0], not taken, n + 1)
        if d.op == "phi" and d.ty == "i1":
            v = env.get(c)
            if v is not None and v[0] != "p" and v[0] == v[1] and bool(v[0]) != taken: return None
            rest = [o for o in d.ops if o not in ("true", "false")]
            consts = [o for o in d.ops if o in ("true", "false")]
            if len(rest) == 1 and all((o == "true") != taken for o in consts): return self.cond(env, rest[0], taken, n + 1)
            return env
        if d.op != "icmp": return env
        from sym import NEG
        p = d.extra if taken else NEG[d.extra]
        a, b = d.ops[:2]
        if a in ("null", "0", "false") and b not in ("null", "0", "false"):
            a, b = b, a; p = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p[1:], None) and p[0] + {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[p[1:]] or p
        if b in ("0", "false", "null") and p in ("eq", "ne"):
            x = self.f.defs.get(a)
            if x is not None and (x.op == "icmp" or x.op == "zext" and x.extra == "i1" or x.op in ("phi", "and", "xor") and x.ty == "i1"):
                return self.cond(env, a, p == "ne", n + 1)
        if self.indexed(a) or self.indexed(b): return env     # a count read from the index may be anything
        if b == "null" and p in ("eq", "ne"):
            x = self.f.defs.get(self.S.strip(a))
            if x is not None and x.op == "load" and x.ty == "ptr":
                k = ("nn", self.S.key(x.ops[0]))
                if k[1] in self.toggled:
                    want = (0, 0) if p == "eq" else (1, 1)
                    if k in env and env[k] != want: return None
                    env = dict(env); env[k] = want
        va, vb = self.val(env, a), self.val(env, b)
        if va is not None and vb is not None and va[0] == "p" and vb[0] == "p":
            if va[1] is not vb[1]: return env
            z = ir.sizeof(self.f.mod, va[1].elem) if va[1].elem else 1; ptr = z
            va, vb = (va[2], va[3]), (vb[2], vb[3])
        elif (va is not None and va[0] == "p") or (vb is not None and vb[0] == "p"):
            other = vb if va is not None and va[0] == "p" else va
            if (va if va is not None and va[0] == "p" else vb)[1].size is None: return env
            if other == (0, 0) and p == "eq": return None     # the array's address is not null
            return env
        else: va = va or (-INF, INF); vb = vb or (-INF, INF); ptr = False
        if p[0] == "u" and not ptr:
            # unsigned comparison: below a non-negative bound means within it
            if p in ("ult", "ule") and vb[0] >= 0 and va[0] >= 0: pass
            elif p in ("ugt", "uge") and va[0] >= 0 and vb[0] >= 0: pass
            elif p in ("ult", "ule") and vb[0] >= 0: va = (0, va[1])
            elif p in ("ugt", "uge") and va[0] >= 0: vb = (0, vb[1])
            # sizes are never negative here
        q = p[1:] if p not in ("eq", "ne") else p
        if q == "lt": na, nb = (va[0], min(va[1], vb[1] - 1 if vb[1] < INF else INF)), (max(vb[0], va[0] + 1 if va[0] > -INF else -INF), vb[1])
        elif q == "le": na, nb = (va[0], min(va[1], vb[1])), (max(vb[0], va[0]), vb[1])
        elif q == "gt": na, nb = (max(va[0], vb[0] + 1 if vb[0] > -INF else -INF), va[1]), (vb[0], min(vb[1], va[1] - 1 if va[1] < INF else INF))
        elif q == "ge": na, nb = (max(va[0], vb[0]), va[1]), (vb[0], min(vb[1], va[1]))
        elif q == "eq": na = nb = (max(va[0], vb[0]), min(va[1], vb[1]))
        else:
            na, nb = va, vb
            if vb[0] == vb[1]:
                if na[0] == vb[0]: na = (na[0] + 1, na[1])
                if na[1] == vb[0]: na = (na[0], na[1] - 1)
            if va[0] == va[1]:
                if nb[0] == va[0]: nb = (nb[0] + 1, nb[1])
                if nb[1] == va[0]: nb = (nb[0], nb[1] - 1)
        if ptr and ptr > 1:       # elements lie at multiples of their size
            na = (na[0], na[1] - na[1] % ptr if na[1] < INF else INF); nb = (nb[0], nb[1] - nb[1] % ptr if nb[1] < INF else INF)
        if na[0] > na[1] or nb[0] > nb[1]: return None
        env = dict(env)
        if q == "ne" and vb == (0, 0): self.nonzero(env, a)
        if self.setv(env, a, na) is False or self.setv(env, b, nb) is False: return None
        return env
    def indexed(self, v, n=0):
        d = self.f.defs.get(v)
        if d is None or n > 4: return False
        if d.op == "call": return bool(d.callee and FROM_INDEX.match(d.callee.lstrip("@")))
        return d.op in ("sext", "zext", "trunc", "freeze", "add", "sub", "mul", "phi", "call") and any(self.indexed(o, n + 1) for o in d.ops if isinstance(o, str))
    def nonzero(self, env, v):
        """a byte (or wide character) that is not the terminator is not the array's last element"""
        d = self.f.defs.get(v)
        while d is not None and d.op in ("sext", "zext", "trunc"): d = self.f.defs.get(d.ops[0])
        if d is None or d.op != "load": return
        if d.ty == "ptr": env[("nn", self.S.key(d.ops[0]))] = (1, 1); return
        p = self.val(env, d.ops[0])
        if p is not None and p[0] == "p" and str(d.ty) == p[1].elem:
            z = 1 if d.ty == "i8" else 4
            self.setv(env, d.ops[0], (p[2], min(p[3], p[1].size - 2 * z)))
    def setv(self, env, v, x, n=0):
        """the value (or offset) of v lies in x: note it for v and for what v is made of"""
        if n > 6 or not isinstance(v, str) or INT.match(v): return True
        cur = self.val(env, v)
        if cur is not None and cur[0] == "p":
            y = (max(cur[2], x[0]), min(cur[3], x[1]))
            if y[0] > y[1]: return False
            env[v] = ("p", cur[1], y[0], y[1])
        elif cur is not None:
            y = (max(cur[0], x[0]), min(cur[1], x[1]))
            if y[0] > y[1]: return False
            env[v] = y
        else: y = x; env[v] = x
        # those that keep step behind it
        for a, bi, ai, h in self.rel.get(v, ()):
            va, vb = self.start(bi, env), self.start(ai, env); ca = env.get(a)
            if va is None or vb is None or ca is None: continue
            c = vb - va
            if ca[0] == "p": env[a] = ("p", ca[1], ca[2], min(ca[3], y[1] + c if y[1] < INF else INF))
            else: env[a] = (ca[0], min(ca[1], y[1] + c if y[1] < INF else INF))
        d = self.f.defs.get(v)
        if d is None: return True
        if d.op == "call" and d.extra == "direct" and d.callee == "strlen": env[("len", self.S.key(d.ops[0]))] = y
        if d.op in ("sext", "zext", "trunc", "freeze"): return self.setv(env, d.ops[0], y, n + 1)
        if d.op == "load" and d.ty != "ptr":
            k = ("cell", self.S.key(d.ops[0]))
            if env.get(("of", k)) == v or True:
                c = env.get(k)
                if c is not None and c[0] != "p": env[k] = (max(c[0], y[0]), min(c[1], y[1]))
                else: env[k] = y
            return True
        if d.op == "add":
            a, b = self.num(env, d.ops[0]), self.num(env, d.ops[1])
            if b[0] == b[1]: return self.setv(env, d.ops[0], iadd(y, ineg(b)), n + 1)
            if a[0] == a[1]: return self.setv(env, d.ops[1], iadd(y, ineg(a)), n + 1)
            return True
        if d.op == "sub":
            pa, pb = self.ptrs(env, d)
            if pa is not None:
                if pb[2] == pb[3]: return self.setv(env, self.f.defs[d.ops[0]].ops[0], (y[0] + pb[2] if y[0] > -INF else y[0], y[1] + pb[2] if y[1] < INF else y[1]), n + 1)
                return True
            a, b = self.num(env, d.ops[0]), self.num(env, d.ops[1])
            if b[0] == b[1]: return self.setv(env, d.ops[0], iadd(y, b), n + 1)
            return True
        if d.op in ("sdiv", "udiv", "ashr") and d.ops[1] in ("4", "2") and y[1] < INF:
            k = 4; return self.setv(env, d.ops[0], (-INF, y[1] * k + k - 1), n + 1)
        if d.op == "getelementptr" and not str(d.ty).startswith("%"):
            b = self.val(env, d.ops[0]); o = d.ops[-1]
            z = ir.sizeof(self.f.mod, ARR.match(str(d.ty)).group(2) if ARR.match(str(d.ty)) else d.ty)
            if b is not None and b[0] == "p" and z in (1, 4):
                if INT.match(o): return self.setv(env, d.ops[0], (y[0] - int(o) * z if y[0] > -INF else y[0], y[1] - int(o) * z if y[1] < INF else y[1]), n + 1)
                if b[2] == b[3]: return self.setv(env, o, (-INF if y[0] <= -INF else -((b[2] - y[0]) // z), INF if y[1] >= INF else (y[1] - b[2]) // z), n + 1)
        return True
    def start(self, v, env):
        x = self.val(env, v)
        if x is None:
            d = self.f.defs.get(v)
            if d is not None and d.op == "getelementptr": x = self.gep(env, d)
        if x is None: return None
        if x[0] == "p": return x[2] if x[2] == x[3] else None
        return x[0] if x[0] == x[1] else None
    def ptrs(self, env, d):
        a, b = self.f.defs.get(d.ops[0]), self.f.defs.get(d.ops[1])
        if a is not None and b is not None and a.op == "ptrtoint" and b.op == "ptrtoint":
            x, y = self.val(env, a.ops[0]), self.val(env, b.ops[0])
            if x is not None and y is not None and x[0] == "p" and y[0] == "p" and x[1] is y[1]: return x, y
        return None, None

    # ------------------------------------------------------------ instructions
    def write(self, env, i, p, n, what):
        """n: interval of bytes written at p"""
        if p[1].size is None: return
        if self.final: self.res.writes.append((i, p[1], p[2], p[3], n, what))
    def arith(self, env, d):
        op = d.op
        if op == "sub":
            x, y = self.ptrs(env, d)
            if x is not None: return iadd((x[2], x[3]), ineg((y[2], y[3])))
        if op == "add": return clamp(iadd(self.num(env, d.ops[0]), self.num(env, d.ops[1])))
        if op == "sub": return clamp(iadd(self.num(env, d.ops[0]), ineg(self.num(env, d.ops[1]))))
        a, b = self.num(env, d.ops[0]), self.num(env, d.ops[1])
        if op in ("mul", "shl") and b[0] == b[1]:
            k = b[0] if op == "mul" else (1 << b[0] if 0 <= b[0] < 32 else None)
            if k is not None and k >= 0: return (a[0] * k if a[0] > -INF else -INF, a[1] * k if a[1] < INF else INF)
        if op in ("mul",) and a[0] == a[1] and a[0] >= 0: return (b[0] * a[0] if b[0] > -INF else -INF, b[1] * a[0] if b[1] < INF else INF)
        if op in ("sdiv", "udiv") and b[0] == b[1] and b[0] > 0:
            return (-INF if a[0] <= -INF else a[0] // b[0], INF if a[1] >= INF else a[1] // b[0])
        if op in ("lshr", "ashr") and b[0] == b[1] and a[0] >= 0: return (a[0] >> b[0], a[1] >> b[0] if a[1] < INF else INF)
        if op in ("urem", "srem") and b[0] == b[1] and b[0] > 0: return (0 if op == "urem" or a[0] >= 0 else 1 - b[0], b[0] - 1)
        if op == "and":
            for x in (a, b):
                if x[0] == x[1] and x[0] >= 0: return (0, x[0])
        return None
    def inst(self, env, i):
        op = i.op
        if op == "getelementptr":
            v = self.gep(env, i)
        elif op in ("zext", "sext", "trunc", "freeze", "bitcast"):
            v = self.val(env, i.ops[0])
            if op == "zext" and v is not None and v[0] != "p" and v[0] < 0: v = (0, v[1]) if False else v
        elif op == "load": v = self.load(env, i)
        elif op == "store": self.store(env, i); return
        elif op == "call": v = self.call(env, i)
        elif op == "select":
            c = i.ops[0]; e1 = self.cond(env, c, True); e2 = self.cond(env, c, False)
            a = self.val(e1, i.ops[1]) if e1 is not None else "x"; b = self.val(e2, i.ops[2]) if e2 is not None else "x"
            v = b if a == "x" else a if b == "x" else join(a, b)
        elif op not in ("add", "sub", "mul", "shl", "sdiv", "udiv", "lshr", "ashr", "urem", "srem", "and"): return
        else: v = self.arith(env, i)
        if i.res:
            if v is None: env.pop(i.res, None)
            else: env[i.res] = v
    def load(self, env, i):
        if i.ty in ("i8",):
            c = env.get(("cell", self.S.key(i.ops[0])))
            return c if c is not None and c[0] != "p" else (-128, 255)
        k = ("cell", self.S.key(i.ops[0]))
        v = env.get(k)
        if i.ty in ("i32", "i64", "i16"):
            b = self.A.inv.get(self.fname(k[1]))
            if b is not None: v = b if v is None or v[0] == "p" else (max(v[0], b[0]), min(v[1], b[1]))
            if v is not None and v[0] != "p" and v[0] > v[1]: v = None
        return v
    def fname(self, k):
        """name of the field (or of the elements of the array in the field) at address key k"""
        if k[0] == "fld": return k[2]
        if k[0] == "at":
            k = k[1]
            if k[0] == "ld" and k[1][0] == "fld": return k[1][2] + "[]"
        elif k[0] == "ld" and k[1][0] == "fld": return k[1][2] + "[]"
        return None
    def store(self, env, i):
        p = self.val(env, i.ops[1])
        if p is not None and p[0] == "p":
            z = ir.sizeof(self.f.mod, i.ty); self.write(env, i, p, (z, z), "store")
            return
        k = self.S.key(i.ops[1]); fa = self.P.field_addr(self.f, i.ops[1])
        self.forget(env, k, fa)
        v = self.val(env, i.ops[0])
        if self.final and i.ty in ("i32", "i64", "i16"):
            n = self.fname(k)
            if n is not None: self.res.stores.append((i, n, v if v is not None and v[0] != "p" else (-INF, INF)))
        env.pop(("nn", k), None)
        if v is not None: env[("cell", k)] = v
        if k in self.toggled:
            if i.ops[0] == "null": env[("nn", k)] = (0, 0)
            else: env[("nn", k)] = (1, 1)
    def forget(self, env, k, fa):
        """a store to address k: other cells that could be the same one"""
        last = k[2] if k[0] == "fld" else None
        for c in [c for c in env if isinstance(c, tuple) and c[0] in ("cell", "nn")]:
            a = c[1]
            if a == k: env.pop(c); continue
            if a[0] == "loc" and k[0] == "loc": continue
            if a[0] == "fld" and k[0] == "fld" and a[2] != last: continue
            if (a[0] == "fld") != (k[0] == "fld") and (a[0] == "loc" or k[0] == "loc" or k[0] == "at" or a[0] == "at"): continue
            env.pop(c)
    def call(self, env, i):
        nm = i.callee if i.extra == "direct" else None; f = self.f; o = i.ops
        def P(k): x = self.val(env, o[k]) if k < len(o) else None; return x if x is not None and x[0] == "p" and x[1].size is not None else None
        def N(k): return self.num(env, o[k]) if k < len(o) else (-INF, INF)
        ret = None; out = {}
        base = re.sub(r'^__(\w+)_chk$', r'\1', nm or "")
        mm = re.match(r'llvm\.(memcpy|memmove|memset)\.', nm or "")
        if mm or base in ("memcpy", "memmove", "memset"):
            p = P(0)
            if p:
                if not self.left(env, o[0], o[2], i.bb.name): self.write(env, i, p, N(2), "copy")
                else: self.write(env, i, ("p", p[1], 0, 0), (0, p[1].size), "copy of what fits")
                return p
            return None
        if base in ("strncpy", "wcstombs", "snprintf", "vsnprintf", "fgets", "mbstowcs", "wcsncpy"):
            p = P(0); k = 1 if base in ("snprintf", "vsnprintf", "fgets") else 2; n = N(k)
            z = 4 if base in ("mbstowcs", "wcsncpy") else 1
            if p: self.write(env, i, p, (0, n[1] * z if n[1] < INF else INF), base)
            if base in ("wcstombs", "mbstowcs"): return (-1, n[1])
            return p if base in ("strncpy", "wcsncpy") else None
        if base in ("strcpy", "stpcpy", "sprintf", "vsprintf", "strcat", "wcscpy"):
            p = P(0)
            if p:
                n = self.A.slen.made(f, i, base)
                if base in ("strcpy", "stpcpy"):
                    x = env.get(("len", self.S.key(o[1])))
                    if x is not None and x[1] < INF: n = x[1] if n is None else min(n, x[1])
                self.write(env, i, p, (0, INF if n is None else n + 1), base)
                if base == "sprintf": return (0, INF if n is None else n)
                return p if base != "stpcpy" else None
            return None
        if base in ("wcrtomb", "wctomb"):
            p = P(0)
            if p: self.write(env, i, p, (MB, MB), base)
            return (-1, MB)
        if nm == "__ctype_get_mb_cur_max": return (MB, MB)
        if nm and re.match(r'llvm\.[us](min|max)\.', nm):
            a, b = N(0), N(1)
            return (min(a[0], b[0]), min(a[1], b[1])) if "min" in nm else (max(a[0], b[0]), max(a[1], b[1]))
        if base == "strlen":
            n = self.A.slen.of(f, o[0]); return (0, INF if n is None else n)
        if base in ("strchr", "strrchr", "memchr"):
            return None
        if nm and FROM_INDEX.match(nm): 
            if nm.endswith("read_bytes") and P(1):
                self.write(env, i, P(1), N(2), "read")
                if self.final and N(2) == (0, 0): self.res.calls.append((i, P(1)))
            self.clobber(env, i, False)
            return (0, 0)
        ts = self.P.targets(i)
        ptrs = [k for k in range(len(o)) if P(k)]
        if self.final and i.extra == "direct": self.res.calls.append((i, [self.val(env, x) for x in o]))
        ts = [t for t in ts if t.blocks and not self.A.skip(t)]
        watched = i.extra == "direct" and any(t.qname in self.A.watch for t in ts)
        if (ptrs or watched or (i.extra == "direct" and len(ts) == 1 and str(i.ty).startswith("i") and self.small(ts[0]))) and self.depth < 4 and len(ts) <= 24:
            rs = []
            for t in ts:
                args = tuple(None if a is not None and a[0] == "p" and a[1].size is None else a for a in (self.val(env, x) for x in o[:len(t.args)]))
                r = self.A.analyse(t, args, self.depth + 1); rs.append(r)
                if self.final:
                    if watched: self.res.stores += r.stores
                    for w in r.writes:
                        if any(w[1] is P(k)[1] for k in ptrs): self.res.writes.append(w)
            if rs and i.extra == "direct":
                ret = rs[0].ret; out = {self.S.key(o[k[1]]): x for k, x in rs[0].cells.items() if k[1] < len(o)}
        self.clobber(env, i, not (nm and PURE.match(nm)))
        for k, x in out.items(): env[("cell", k)] = x
        # fields that a direct call always sets
        if i.extra == "direct" and len(ts) == 1:
            for path, c in self.A.slen.sets(ts[0]).items():
                b = self.S.key(o[0]) if o else None
                if b is None: break
                for n in path: b = ("fld", b, n)
                env[("cell", b)] = (c, c)
        return ret
    def small(self, t): return sum(len(t.blocks[b].insts) for b in t.order) < 80
    def clobber(self, env, i, all_):
        if not all_:
            for o in i.ops:
                if isinstance(o, str):
                    k = self.S.key(o)
                    for c in [c for c in env if isinstance(c, tuple) and c[0] in ("cell", "nn") and c[1] == k]: env.pop(c)
            return
        passed = {self.S.key(o) for o in i.ops if isinstance(o, str)}
        for c in [c for c in env if isinstance(c, tuple) and c[0] in ("cell", "nn")]:
            if c[1][0] == "loc" and c[1] not in passed: continue
            env.pop(c)

    # ------------------------------------------------------------ fixpoint
    def part(self, env):
        return tuple(sorted(((repr(k), v) for k, v in env.items() if isinstance(k, tuple) and k[0] == "nn" and k[1] in self.toggled), key=repr)) + \
               tuple(sorted((k, v[1].name) for k, v in env.items() if isinstance(k, str) and v[0] == "p" and v[1].size is not None and k in self.pphis)) + \
               tuple(sorted((k, v) for k, v in env.items() if k in self.bphis))
    def widen(self, a, b, phase):
        if a is None or b is None: return None
        if (a[0] == "p") != (b[0] == "p"): return None
        if a[0] == "p":
            if a[1] is not b[1]: return None
            lo, hi = self.widen((a[2], a[3]), (b[2], b[3]), phase); return ("p", a[1], lo, hi)
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
        if phase and lo < a[0]: lo = max([t for t in self.th if t <= lo] + [-INF])
        if phase and hi > a[1]: hi = min([t for t in self.th if t >= hi] + [INF])
        if phase > 1:
            if lo < a[0]: lo = -INF
            if hi > a[1]: hi = INF
        return (lo, hi)
    def go(self):
        f = self.f
        self.pphis = {i.res for i in f.insts() if i.op == "phi" and i.ty == "ptr"}
        self.bphis = {i.res for i in f.insts() if i.op == "phi" and i.ty == "i1"}
        loops = self.S.loops()
        if self.depth == 0 and not self.pphis:
            self.final = True
            for b in f.order: self.flow(b, {(): {}})
            w = [x for x in self.res.writes if x[3] >= INF or x[4][1] >= INF or x[3] + x[4][1] > x[1].size]
            if not w and not any(x[1] in self.A.inv and x[2][1] > self.A.inv[x[1]][1] for x in self.res.stores) and not any(self.A.wants(x[0]) for x in self.res.calls): return self.res
            self.final = False; self.res = Result()
        self.live = self.liveness()
        entry = f.order[0]; visits = {}
        e0 = {("cell", ("loc", i.res)): (INF, -INF) for i in f.insts() if i.op == "alloca" and str(i.ty) in ("i32", "i64")}
        st = {entry: {(): e0}}
        order = {b: n for n, b in enumerate(self.rpo())}
        import heapq
        wl = [(0, entry)]; inw = {entry}; steps = 0
        while wl:
            _, b = heapq.heappop(wl); inw.discard(b); steps += 1
            if steps > 20000: self.res.broken = True; break
            for s, envs in self.flow(b, st[b]).items():
                cur = st.setdefault(s, {}); ch = False
                for env in envs:
                    pk = self.part(env)
                    if pk not in cur and len(cur) >= 10: pk = next(iter(cur))
                    old = cur.get(pk)
                    if old is None: cur[pk] = env; ch = True; continue
                    n = visits.get((s, pk), 0)
                    ph = 0 if s not in loops or n < 3 else 1 if n < 60 else 2
                    new = {}
                    for k in old:
                        if k in env:
                            w = self.widen(old[k], env[k], ph)
                            if w is not None: new[k] = w
                    if new != old: cur[pk] = new; ch = True; visits[(s, pk)] = n + 1
                if ch and s not in inw and s in order: heapq.heappush(wl, (order[s], s)); inw.add(s)
        # narrowing: rounds from the fixpoint, joins instead of widening
        bs = sorted((b for b in st if b in order), key=order.get)
        outs = {b: self.flow(b, st[b]) for b in bs}
        for _ in range(3):
            for b in bs:
                a = {(): e0} if b == entry else {}
                for p in f.blocks[b].preds:
                    for env in outs.get(p, {}).get(b, ()):
                        pk = self.part(env)
                        if pk not in a and len(a) >= 10: pk = next(iter(a))
                        if pk in a: a[pk] = {k: j for k in a[pk] if k in env for j in [join(a[pk][k], env[k])] if j is not None}
                        else: a[pk] = env
                st[b] = a; outs[b] = self.flow(b, a)
        self.final = True; self.st = st
        for b in sorted(st, key=lambda x: order.get(x, 0)): self.flow(b, st[b])
        self.res.states = st
        return self.res
    def liveness(self):
        """names whose value may still matter on entry to each block; a use of a computed value uses what it is computed from"""
        f = self.f; memo = {}
        PUREOP = set(ir._CASTS) | {"getelementptr", "icmp", "add", "sub", "mul", "sdiv", "udiv"}
        def close(v):
            if v in memo: return memo[v]
            memo[v] = r = {v}; d = f.defs.get(v)
            if d is not None and d.op in PUREOP:
                for o in d.ops:
                    if isinstance(o, str) and o.startswith("%"): r |= close(o)
            return r
        use, dfn, phi = {}, {}, {}
        for b in f.order:
            u, k = set(), set()
            for i in f.blocks[b].insts:
                if i.op == "phi":
                    k.add(i.res)
                    for o, p in i.extra:
                        if isinstance(o, str) and o.startswith("%"): phi.setdefault(p, set()).update(close(o))
                    continue
                for o in i.ops:
                    if isinstance(o, str) and o.startswith("%"): u |= close(o)
                if i.res: k.add(i.res)
            use[b], dfn[b] = u, k
        for v, l in self.rel.items():
            for a, bi, ai, h in l:
                for b in self.S.loops()[h] | {h}:
                    for o in (bi, ai):
                        if o.startswith("%"): use[b] |= close(o)
        live = {b: set() for b in f.order}; po = self.rpo()[::-1]; ch = True
        while ch:
            ch = False
            for b in po:
                out = set(phi.get(b, ()))
                for s in f.blocks[b].succs: out |= live[s]
                n = (use[b] | out) - {x for x in dfn[b] if f.defs[x].op != "phi"}
                # phis of b are set on the edge into it: they are live on entry when anything here or below uses them
                if not n <= live[b]: live[b] |= n; ch = True
        return live
    def rpo(self):
        f = self.f; seen = set(); out = []
        st = [(f.order[0], iter(f.blocks[f.order[0]].succs))]; seen.add(f.order[0])
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(f.blocks[s].succs))); break
            else: out.append(b); st.pop()
        return out[::-1]
    def flow(self, b, parts):
        """-> {successor: [env]}"""
        f = self.f; out = {}; bl = f.blocks[b]
        for env0 in list(parts.values()):
            env = dict(env0)
            for i in bl.insts: self.inst(env, i)
            t = bl.term
            if t is None: continue
            if t.op == "ret":
                if self.final:
                    v = self.val(env, t.ops[0]) if t.ops else None
                    if v is not None and v[0] == "p" and v[1].size is None: v = None
                    cs = {c[1]: x for c, x in env.items() if isinstance(c, tuple) and c[0] == "cell" and c[1][0] == "arg" and x[0] != "p"}
                    self.res.cells = cs if self.res.rets == 0 else {k: join(x, cs[k]) for k, x in self.res.cells.items() if k in cs}
                    if self.res.rets == 0: self.res.ret = v
                    else: self.res.ret = join(self.res.ret, v)
                    self.res.rets += 1
                continue
            for s in bl.succs:
                e = env
                if t.op == "br" and len(t.extra) == 2 and t.extra[0] != t.extra[1]:
                    e = self.cond(env, t.ops[0], t.extra[0] == s)
                    if e is None: continue
                elif t.op == "switch":
                    ks = [int(x[0]) for x in t.extra[1] if x[1] == s and INT.match(str(x[0]))]
                    if t.extra[0] != s and ks:
                        e = dict(env)
                        if 0 not in ks: self.nonzero(e, t.ops[0])
                        if self.setv(e, t.ops[0], (min(ks), max(ks))) is False: continue
                    elif t.extra[0] == s and any(str(x[0]) == "0" for x in t.extra[1]):
                        e = dict(env); self.nonzero(e, t.ops[0])
                gone = [k for k in self.bphis if k in e and f.defs[k].bb.name == b]
                if gone: e = {k: v for k, v in e.items() if k not in gone}
                ph = [i for i in f.blocks[s].insts if i.op == "phi"]
                if ph:
                    new = {}
                    for i in ph:
                        o = next((o for o, p in i.extra if p == b), None)
                        new[i.res] = self.val(e, o) if o is not None else None
                    e = dict(e)
                    for k, v in new.items():
                        if v is None: e.pop(k, None)
                        else: e[k] = v
                    for i in ph:
                        for a, bi, ai, h in self.rel.get(i.res, ()):
                            if h != s: continue
                            y = e.get(i.res); ca = e.get(a); s1, s2 = self.start(bi, e), self.start(ai, e)
                            if y is None or ca is None or s1 is None or s2 is None: continue
                            top = y[3] if y[0] == "p" else y[1]
                            top = top + s2 - s1 if top < INF else INF
                            e[a] = ("p", ca[1], ca[2], min(ca[3], top)) if ca[0] == "p" else (ca[0], min(ca[1], top))
                else: e = dict(e)
                lv = self.live.get(s) if self.live else None
                if lv is not None: e = {k: v for k, v in e.items() if not isinstance(k, str) or k in lv}
                out.setdefault(s, []).append(e)
        return out
