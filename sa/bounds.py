"""Upper bounds on the lengths of strings: constants, tables of constants, arrays, formatted text, bounded names."""
import re, ir
from sym import Sym

ARR = re.compile(r'^\[(\d+) x (.*)\]$')
FMT = re.compile(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|j|z|t|L|q)?([diouxXcsfeEgGp%])')
STR = re.compile(r'c"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)"')

class Strings:
    def __init__(self, P, names):
        self.P = P; self._s = {}; self._l = {}; self._sets = {}; self.names = dict(names); self._aw = {}
    def S(self, f):
        s = self._s.get(f.qname)
        if s is None: s = self._s[f.qname] = Sym(self.P, f)
        return s
    # ------------------------------------------------------------ constants
    def text(self, mod, v):
        if not isinstance(v, str) or not v.startswith("@"): return None
        t = mod.globals.get(v[1:].strip('"'))
        if t is None: return None
        m = STR.search(t)
        if m and " constant [" in " " + t and re.search(r'constant \[\d+ x i8\]', t):
            s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda x: chr(int(x.group(1), 16)), m.group(1))
            return s.split("\0")[0]
        if re.search(r'constant \[\d+ x i8\] zeroinitializer', t): return ""
        return None
    def table(self, mod, g):
        """longest string of a constant table of strings"""
        t = mod.globals.get(g)
        if t is None or not re.search(r'(constant|internal global) \[\d+ x ptr\]', t): return None
        ls = [self.text(mod, "@" + x) for x in re.findall(r'ptr @([\w.]+)', t)]
        if not ls or any(x is None for x in ls): return None
        return max(len(x) for x in ls)
    # ------------------------------------------------------------ lengths
    def of(self, f, v, depth=0):
        if depth > 9 or not isinstance(v, str): return None
        key = (f.qname, v)
        if key in self._l: return self._l[key]
        self._l[key] = None
        r = self._l[key] = self._of(f, v, depth)
        return r
    def _of(self, f, v, depth):
        P = self.P; S = self.S(f)
        t = self.text(f.mod, v)
        if t is not None: return len(t)
        d = f.defs.get(v)
        k = S.key(v)
        if k[0] == "ld" and k[1][0] == "fld" and k[1][2] in self.names: return self.names[k[1][2]]
        if d is not None and d.op in ir._CASTS: return self.of(f, d.ops[0], depth + 1)
        if d is not None and d.op == "alloca":
            m = ARR.match(str(d.ty))
            if m and m.group(2) == "i8":
                w = self.array_text(f, v, depth)
                return min(int(m.group(1)) - 1, w if w is not None else 1 << 40)
            return None
        if d is not None and d.op == "load":
            g = k[1]
            while g[0] in ("at", "fld"): g = g[1]
            if g[0] == "g":
                n = self.table(f.mod, g[1])
                if n is not None: return n
        if d is not None and d.op in ("phi", "select"):
            ls = [self.of(f, o, depth + 1) for o in (d.ops if d.op == "phi" else d.ops[1:]) if o != v]
            return max(ls) if ls and all(x is not None for x in ls) else None
        if d is not None and d.op == "getelementptr":
            m = ARR.match(str(d.ty))
            if m and m.group(2) == "i8":
                b = f.defs.get(d.ops[0])
                if b is not None and b.op == "alloca": return self.of(f, d.ops[0], depth + 1)
                return int(m.group(1)) - 1
            t = self.fieldlen(f, d)
            if t is not None: return t
            if len(d.ops) == 2: return self.of(f, d.ops[0], depth + 1)
            return None
        if d is not None and d.op == "call":
            if d.extra == "direct" and re.match(r'^(strrchr|strchr|strstr|__rawmemchr|strcpy|strcat|strncpy|memcpy|frt_estrdup|strdup)$', d.callee): return self.of(f, d.ops[0], depth + 1)
            ts = P.targets(d) if d.extra == "direct" else []
            if len(ts) == 1 and ts[0].blocks:
                t = ts[0]; ls = []
                for b in t.order:
                    x = t.blocks[b].term
                    if x is not None and x.op == "ret" and x.ops:
                        if x.ops[0] == "null": continue
                        a = self.S(t).key(x.ops[0])
                        while a[0] == "at": a = a[1]
                        if a[0] == "arg" and a[1] < len(d.ops): ls.append(self.of(f, d.ops[a[1]], depth + 1))
                        else: ls.append(self.of(t, x.ops[0], depth + 1))
                if ls and all(x is not None for x in ls): return max(ls)
            return None
        if v in f.args:
            j = f.args.index(v); cs = P.callers[f.qname]; m = None
            if not cs or f.qname in self.addr(): return None
            for c in cs:
                u = self.of(c.fn, c.ops[j], depth + 1) if j < len(c.ops) else None
                if u is None: return None
                m = u if m is None else max(m, u)
            return m
        return None
    def fieldlen(self, f, d):
        ty = str(d.ty)
        if not ty.startswith("%"): return None
        fl = f.mod.fields.get(ty.lstrip("%").strip('"')); e = None
        for o in d.ops[2:]:
            if fl is None or not o.isdigit() or int(o) >= len(fl): return None
            e = fl[int(o)][1]; fl = f.mod.fields.get(e.lstrip("%").strip('"')) if e.startswith("%") else None
        m = ARR.match(e or "")
        return int(m.group(1)) - 1 if m and m.group(2) == "i8" else None
    def array_text(self, f, a, depth):
        """longest text that the calls in f put into the local array a, when only calls that write text do"""
        worst = 0; seen = False
        def uses(v, n):
            for i in f.insts():
                if v not in i.ops: continue
                if i.op == "getelementptr" and i.ops[0] == v and n < 3:
                    if all(o == "0" for o in i.ops[1:]): yield from uses(i.res, n + 1)
                    else: yield ("part", i)
                elif i.op in ("phi", "select"): yield ("part", i)
                else: yield ("use", i)
        for kind, i in uses(a, 0):
            if kind == "part" and i.op == "getelementptr" and self.digits(f, i): worst = max(worst, 14); seen = True; continue
            if kind == "part" or i.op in ("store",): 
                if i.op == "store" and i.ops[0] == "0": continue
                if kind == "part" and i.op == "getelementptr" and all(u.op in ("load",) for u in f.insts() if i.res in u.ops): continue
                return None
            if i.op != "call": continue
            k = i.ops.index(a) if a in i.ops else 0
            b = i.callee if i.extra == "direct" else ""
            if b in ("strcpy", "sprintf", "vsprintf") and k == 0:
                n = self.made(f, i, b, depth + 1)
                if n is None: return None
                worst = max(worst, n); seen = True
            elif b.startswith("llvm.lifetime") or re.match(r'^(str\w*cmp|strlen|strrchr|strchr|printf|fprintf|free|remove|open64|frt_estrdup|frt_h_\w+)$', b): continue
            elif i.extra == "direct" and self.P.targets(i) and not any(self.writes(t, k) for t in self.P.targets(i)): continue
            elif i.extra == "indirect": continue      # operations of stores take names; they do not change them
            elif i.extra == "direct":
                ts = self.P.targets(i)
                n = self.filled(f, i, k, ts[0], depth + 1) if len(ts) == 1 else None
                if n is None: return None
                worst = max(worst, n); seen = True
            else: return None
        return worst if seen else None
    def digits(self, f, g):
        """the element is only written with a digit of a number that a loop divides by ten or more"""
        S = self.S(f)
        for u in f.insts():
            if g.res not in u.ops: continue
            if u.op == "store" and u.ops[1] == g.res:
                if re.match(r"^\d+$", u.ops[0]): continue
                body = next((b for h, b in S.loops().items() if u.bb.name in b), None)
                if body is None or not any(x.op in ("udiv", "sdiv") and re.match(r"^\d+$", x.ops[1]) and int(x.ops[1]) >= 10 for b in body for x in f.blocks[b].insts): return False
        return True
    def filled(self, f, i, k, t, depth):
        """longest text function t puts into its argument k"""
        if depth > 6 or not t.blocks or k >= len(t.args): return None
        worst = None; v = t.args[k]
        for x in t.insts():
            if x.op != "call" or v not in x.ops: 
                if x.op == "store" and v in x.ops: return None
                if x.op == "getelementptr" and x.ops[0] == v: return None
                continue
            j = x.ops.index(v); b = x.callee if x.extra == "direct" else ""
            if b in ("sprintf", "strcpy") and j == 0: n = self.made(t, x, b, depth + 1, (f, i))
            elif b == "snprintf" and j == 0: n = int(x.ops[1]) - 1 if x.ops[1].isdigit() else None
            elif len(self.P.targets(x)) == 1: n = self.filled(t, x, j, self.P.targets(x)[0], depth + 1)
            else: n = None
            if n is None: return None
            worst = n if worst is None else max(worst, n)
        return worst
    def writes(self, t, k, n=0):
        """may t write through its argument k"""
        if not t.blocks or k >= len(t.args) or n > 3: return True
        v = t.args[k]; al = {v}
        for _ in range(3):
            for x in t.insts():
                if x.op in ("getelementptr", "phi", "select") and any(o in al for o in x.ops): al.add(x.res)
        for x in t.insts():
            if x.op == "store" and x.ops[1] in al: return True
            if x.op == "store" and x.ops[0] in al: return True
            if x.op == "call":
                for j, o in enumerate(x.ops):
                    if o in al:
                        b = x.callee if x.extra == "direct" else ""
                        if re.match(r'^(str\w*cmp|strlen|strrchr|strchr|strstr|printf|fprintf|frt_estrdup|isw?\w+|remove|open64|sscanf|__isoc99_sscanf)$', b): continue
                        if b in ("llvm.memcpy.p0.p0.i64", "memcpy", "snprintf", "sprintf", "strcpy", "strncpy", "vsnprintf") and j >= 1: continue
                        ts = self.P.targets(x)
                        if x.extra == "indirect": continue
                        if not ts or any(self.writes(y, j, n + 1) for y in ts): return True
        return False
    def made(self, f, i, base, depth=0, ctx=None):
        """longest text a call of strcpy / sprintf makes"""
        if base in ("strcpy", "stpcpy"): return self.ctxof(f, i.ops[1], depth, ctx)
        if base == "sprintf":
            fmt = self.text(f.mod, i.ops[1])
            return self.printed(f, fmt, i.ops[2:], depth, ctx) if fmt is not None else None
        return None
    def ctxof(self, f, v, depth, ctx):
        if ctx is not None and v in f.args and f.args.index(v) < len(ctx[1].ops): return self.of(ctx[0], ctx[1].ops[f.args.index(v)], depth + 1)
        return self.of(f, v, depth + 1)
    def printed(self, f, fmt, args, depth=0, ctx=None):
        n = 0; pos = 0; k = 0
        for m in FMT.finditer(fmt):
            n += m.start() - pos; pos = m.end()
            fl, w, pr, ln, cv = m.groups()
            if cv == "%": n += 1; continue
            if pr == "*" or w == "*": return None
            a = args[k] if k < len(args) else None; k += 1
            if cv == "s":
                l = self.ctxof(f, a, depth, ctx)
                if pr is not None: l = int(pr) if l is None else min(l, int(pr))
                if l is None: return None
            elif cv == "c": l = 1
            elif cv in "diouxX": l = 22 if ln in ("l", "ll", "q", "j", "z", "t") else 11
            elif cv == "p": l = 20
            elif cv in "gGeE": l = (int(pr) if pr else 6) + 9
            else: l = 318 + (int(pr) if pr else 6)
            n += max(l, int(w) if w else 0)
        return n + len(fmt) - pos
    # ------------------------------------------------------------ fields a call always sets to a constant
    def sets(self, t):
        r = self._sets.get(t.qname)
        if r is not None: return r
        r = self._sets[t.qname] = {}
        if not t.blocks: return r
        S = self.S(t)
        rets = [b for b in t.order if t.blocks[b].term is not None and t.blocks[b].term.op == "ret"]
        for i in t.insts():
            if i.op == "store" and re.match(r"^-?\d+$", i.ops[0]) and all(S.dominates(i.bb.name, x) for x in rets):
                k = S.key(i.ops[1]); out = []
                while k[0] == "fld": out.append(k[2]); k = k[1]
                if k == ("arg", 0) and out: r[tuple(reversed(out))] = int(i.ops[0])
        return r
    def addr(self):
        if not hasattr(self, "_addr"):
            import lockset
            self._addr = lockset.address_taken(self.P)
        return self._addr
