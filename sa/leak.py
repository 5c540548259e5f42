"""Objects created in a function and neither released, kept nor returned by the time it returns.

An object is tracked from the call that created it.  It is settled when it is released (freed, or handed to a function
that frees or may free its argument), stored in memory, returned, or handed to a function that may keep it."""
from prog import Client, explore, AnalysisBroken
import own

NOKEEP = {"strlen", "strcmp", "strncmp", "memcpy", "memmove", "memset", "memcmp", "sprintf", "snprintf", "printf", "fprintf", "strcpy",
          "strncpy", "strcat", "strncat", "qsort", "strchr", "strrchr", "strstr", "fputs", "fwrite", "fread", "write", "read", "sscanf", "strtol",
          "mbstowcs", "wcstombs", "wcslen", "vsnprintf", "vsprintf", "strtoul", "atoi", "toupper", "tolower", "strcoll", "strcasecmp",
          "readdir", "readdir_r", "stat", "fstat", "open", "unlink", "remove", "fgets", "fputc", "fflush", "rb_str_new", "rb_str_new2", "rb_str_new_cstr", "rb_intern",
          "rb_raise", "rb_float_new", "access", "mkdir", "rmdir", "strtod", "strftime", "puts",
          "pthread_mutex_init", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_destroy", "bcmp"}

class Leak:
    def __init__(self, P):
        self.P = P; self._keep = {}; self._fresh = {}; self._home = None; self._read = None; self.refs = True
    def read(self):
        """fields that are read somewhere"""
        if self._read is None:
            self._read = set()
            for f in self.P.funcs.values():
                for i in f.insts():
                    if i.op == "store": continue
                    for o in i.ops:
                        if isinstance(o, str) and o in f.defs and f.defs[o].op == "getelementptr":
                            fa = self.P.field_addr(f, o)
                            if fa: self._read.add(fa)
                            for n in self.P.field_of_gep(f, f.defs[o]): self._read.add(n)
        return self._read
    def homes(self):
        """fields from which something is released, kept or returned: an object stored only in another field is still nobody's"""
        if self._home is None:
            self._home = True                       # while computing: every field
            for _ in range(3):
                h = self._homes_i()
                if h == self._home: break
                self._home = h; self._keep = {}; self._fresh = {}
        return self._home
    def home(self, fa):
        h = self.homes()
        return h is True or fa in h
    def _homes_i(self):
        h = set()
        for q, f in self.P.funcs.items():
            roots = {}
            cl = own.cells(f)
            for i in f.insts():
                if i.op == "getelementptr" or i.op == "bitcast":
                    fa = self.P.field_addr(f, i.res)
                    if not fa: continue
                    for u in self.uses(f, i.res):
                        if u.op == "load": roots.setdefault(fa, set()).add(u.res)
                        elif u.op == "store" and u.ops[1] == i.res and u.ops[0] != i.res or u.op in ("icmp", "getelementptr", "bitcast"): pass
                        elif u.op == "call" and u.extra == "direct" and u.callee.startswith("llvm."): pass
                        else: h.add(fa)
            for fa, vs in roots.items():
                if fa not in h and self.escapes(f, vs): h.add(fa)
        return h
    def uses(self, f, v):
        u = f.__dict__.get("_uses")
        if u is None:
            u = {}
            for i in f.insts():
                for o in set(x for x in i.ops if isinstance(x, str)): u.setdefault(o, []).append(i)
            f._uses = u
        return u.get(v, ())
    def escapes(self, f, vs):
        """a value of vs is released, kept, stored or returned"""
        cl = own.cells(f); todo = list(vs); seen = set(todo)
        def add(v):
            if v is not None and v not in seen: seen.add(v); todo.append(v)
        while todo:
            v = todo.pop()
            for u in self.uses(f, v):
                if u.op in ("phi", "select", "bitcast", "freeze"): add(u.res)
                elif u.op == "getelementptr" and u.ops[0] == v: add(u.res)
                elif u.op == "load" and v in cl: add(u.res)
                elif u.op == "store" and u.ops[0] == v:
                    if u.ops[1] in cl: add(u.ops[1])
                    else: return True
                elif u.op == "ret": return True
                elif u.op == "ptrtoint":
                    if not all(x.op in ("sub", "icmp") for x in self.uses(f, u.res)): return True
                elif u.op == "call":
                    if v in cl: return True
                    for k, o in enumerate(u.ops):
                        if o == v:
                            x = self.call_keeps(u, k)
                            if x is True: return True
                            if x == "ret": add(u.res)
        return False
    def keeps(self, t, n):
        """True: the function may free, store or otherwise keep argument n; "ret": it may only return it; else False"""
        key = (t.qname, n)
        if key in self._keep: return self._keep[key]
        self._keep[key] = False
        if n >= len(t.args): return False       # further arguments are only formatted
        vals = {t.args[n]}; cells = set(); ch = True
        r = False; back = False; up = self.counts(t, n)
        while ch and not r:
            ch = False
            for i in t.insts():
                if i.op in ("phi", "select", "bitcast", "freeze", "ptrtoint", "inttoptr") and i.res not in vals and any(o in vals for o in i.ops):
                    vals.add(i.res); ch = True
                elif i.op == "getelementptr" and i.ops[0] in vals and i.res not in vals and all(o == "0" for o in i.ops[1:]):
                    vals.add(i.res); ch = True
                elif i.op == "load" and i.ops[0] in cells and i.res not in vals:
                    vals.add(i.res); ch = True
                elif i.op == "store" and i.ops[0] in vals:
                    if self.P.field_addr(t, i.ops[1]) and not self.home(self.P.field_addr(t, i.ops[1])): continue
                    if i.ops[1] in own.cells(t):
                        if i.ops[1] not in cells: cells.add(i.ops[1]); ch = True
                    elif not up: r = True           # a reference of its own
                elif i.op == "ret" and i.ops and i.ops[0] in vals: back = True
                elif i.op == "call":
                    for k, o in enumerate(i.ops):
                        if o in vals:
                            x = self.call_keeps(i, k)
                            if x is True: r = True
                            elif x == "ret" and i.res is not None and i.res not in vals: vals.add(i.res); ch = True
        if not r and back: r = "ret"
        self._keep[key] = r
        return r
    def counts(self, t, n):
        """the function adds to the reference count of argument n"""
        a = t.args[n]; vs = {a}
        for i in self.uses(t, a):
            if i.op == "store" and i.ops[0] == a and i.ops[1] in own.cells(t): vs |= {j.res for j in self.uses(t, i.ops[1]) if j.op == "load"}
        for i in t.insts():
            if i.op != "store": continue
            d, g = t.defs.get(i.ops[0]), t.defs.get(i.ops[1])
            if d is not None and d.op == "add" and d.ops[1] == "1" and g is not None and g.op == "getelementptr" and g.ops[0] in vs \
               and (self.P.field_addr(t, i.ops[1]) or "").endswith(".ref_cnt"): return True
        return False
    def call_keeps(self, i, n):
        c = i.callee if i.extra == "direct" else None
        if c and c.endswith("64"): c = c[:-2]
        ts = self.P.targets(i)
        if not ts:
            if c is None: return True
            if n == 0 and c in ("strcat", "strcpy", "strncpy", "strncat", "memcpy", "memmove", "memset", "strchr", "strrchr", "strstr"): return "ret"
            return not (c in NOKEEP or c.startswith("llvm."))
        rs = [self.keeps(t, n) for t in ts]
        return True if True in rs else "ret" if "ret" in rs else False
    def fresh(self, t):
        """True: every object the function returns was created by this call and is kept nowhere else;
        None: it returns no object; False: anything else"""
        q = t.qname
        if q in self._fresh: return self._fresh[q]
        self._fresh[q] = None           # while recursing: decided by the other cases
        r = self._fresh_i(t)
        self._fresh[q] = r
        return r
    def _fresh_i(self, t):
        if t.ret != "ptr" or len(t.order) > 150: return False
        if t.qname in self.P.noreturn: return None
        got = set()
        class Cl(LeakClient):
            def step(s, i, st):
                if i.op == "load" and i.ty == "ptr" and pooled(t, i.ops[0]): return s.drop(st, i.res) | {(i.res, "pool")}      # from a free list
                if i.op == "ret" and i.ops:
                    o = s.objs(st, i.ops[0])
                    got.add(None if i.ops[0] == "null" or o == {"null"} else "pool" if o == {"pool"} else bool(o))
                return LeakClient.step(s, i, st)
        cl = Cl(self, t, lambda i: i.ty == "ptr" and self.call_fresh(i))
        try: explore(self.P, t, frozenset(), cl, max_states=8000)
        except AnalysisBroken: return False
        return False if False in got or "pool" in got and True not in got else True if True in got else None
    def call_fresh(self, i):
        c = i.callee if i.extra == "direct" else None
        if c in ("frt_emalloc", "frt_ecalloc", "malloc", "calloc", "frt_estrdup", "strdup", "opendir", "fopen"): return True
        ts = self.P.targets(i)
        rs = [self.fresh(t) for t in ts]
        return False if not rs or False in rs else True if True in rs else None

def pooled(f, a):
    """the address of an element of a global table, at an index that varies"""
    d = f.defs.get(a)
    return d is not None and d.op == "getelementptr" and d.ops[0].startswith("@") and str(d.ty).startswith("[") and not d.ops[-1].isdigit()

def base(o): return o[1] if isinstance(o, tuple) else o

class LeakClient(Client):
    """state: frozenset of (local or value, object) aliases and ("live", object)"""
    def __init__(self, L, f, want):
        Client.__init__(self, L.P); self.L = L; self.f = f; self.want = want; self.cells = own.cells(f)
        self.ptrs = set(f.args) | {i.res for i in f.insts() if i.ty == "ptr" and i.res}
    def steady(self, d):
        return all(o in self.f.args or o.lstrip("-").isdigit() or o == "null" for o in d.ops)
    def objs(self, st, v):
        if v == "null": return {"null"}
        return {o for k, o in st if k == v}
    def settle(self, st, v, plain=False):
        os = {base(o) for o in self.objs(st, v) if not (plain and isinstance(o, tuple))} - {"null"}
        return frozenset(x for x in st if base(x[1]) not in os) if os else st
    def drop(self, st, v): return frozenset(x for x in st if x[0] != v)
    def step(self, i, st):
        if i.op == "load" and i.ops[0] in self.cells:
            st = self.drop(st, i.res)
            return st | {(i.res, o) for o in self.objs(st, i.ops[0])}
        if i.op == "store":
            if i.ops[1] in self.cells:
                o = self.objs(st, i.ops[0])
                return self.drop(st, i.ops[1]) | {(i.ops[1], x) for x in o}
            fa = self.P.field_addr(self.f, i.ops[1])
            if fa and not self.L.home(fa): return st        # nothing is ever taken from there
            if fa and fa.endswith(".ref_cnt") and self.L.refs:
                # one more reference to an argument: the caller gets it if it is returned
                d = self.f.defs.get(i.ops[0]); b = self.f.defs.get(i.ops[1])
                if d is not None and d.op == "add" and b is not None and b.op == "getelementptr":
                    if d.ops[1] == "1" and b.ops[0] in self.f.args: return st | {(b.ops[0], b.ops[0])}
                    if d.ops[1] == "-1": return self.settle(st, b.ops[0])       # and one less
            a = {base(x) for x in self.objs(st, i.ops[0])}
            if a and a == {base(x) for x in self.objs(st, i.ops[1])}: return st       # a part of itself
            return self.settle(st, i.ops[0])
        if i.op in ("bitcast", "freeze") or i.op == "getelementptr":
            o = self.objs(st, i.ops[0])
            return self.drop(st, i.res) | {(i.res, x) for x in o}
        if i.op == "select":
            o = self.objs(st, i.ops[1]) | self.objs(st, i.ops[2])
            return self.drop(st, i.res) | {(i.res, x) for x in o}
        if i.op == "ptrtoint":
            # a difference of addresses or a comparison keeps nothing
            if all(u.op in ("sub", "icmp") for u in self.f.insts() if i.res in u.ops): return st
            return self.settle(st, i.ops[0])
        if i.op == "ret" and i.ops and i.ops[0]: return self.settle(st, i.ops[0])
        return st
    def phi(self, i, prev, st):
        for v, b in i.extra:
            if b == prev:
                o = self.objs(st, v)
                return self.drop(st, i.res) | {(i.res, x) for x in o}
        return st
    def call(self, i, st):
        back = set()
        if i.extra == "direct" and i.callee in ("frt_erealloc", "realloc"):     # the same object, perhaps moved
            o = self.objs(st, i.ops[0])
            st = self.drop(st, i.res)
            if o - {"null"}: return [st | {(i.res, x) for x in o}], [st]
            return [st | {(i.res, i.res), ("live", i.res)}] if i.ops[0] == "null" else [st], [st]
        for n, o in enumerate(i.ops):
            if isinstance(o, str) and self.objs(st, o):
                k = self.L.call_keeps(i, n)
                if k is True: st = self.settle(st, o)
                elif k == "ret": back |= self.objs(st, o)
        exc = st
        if i.res is not None:
            st = self.drop(st, i.res)
            if back: return [st | {(i.res, x if x == "null" else ("or null", base(x))) for x in back}], [exc]
            w = self.want(i) if i.ty == "ptr" else False
            if w is None: st = st | {(i.res, "null")}
            if w: st = st | {(i.res, i.res), ("live", i.res)}
        return [st], [exc]
    def branch(self, i, cond, taken, st):
        d = self.f.defs.get(cond)
        if d is not None and d.op == "phi":         # a || b, a && b: one side is constant
            o = [x for x in d.ops if x not in ("true", "false")]
            if len(o) == 1 and all(x == ("false" if taken else "true") for x in d.ops if x != o[0]): d = self.f.defs.get(o[0])
        if d is not None and d.op == "icmp" and self.steady(d):
            # a condition on arguments is decided once and for all
            k = ("if", d.extra, tuple(d.ops))
            for a, b in st:
                if a == k and b != taken: return None
            st = st | {(k, taken)}
        if d is not None and d.op == "icmp" and d.extra in ("eq", "ne") and d.ops[0] in self.ptrs and d.ops[1] in self.ptrs and taken == (d.extra == "eq"):
            a, b = self.objs(st, d.ops[0]), self.objs(st, d.ops[1])     # the same object
            st = st | {(d.ops[0], x) for x in b} | {(d.ops[1], x) for x in a}
        if d is not None and d.op == "icmp" and d.extra in ("eq", "ne") and "null" in d.ops:
            v = d.ops[0] if d.ops[1] == "null" else d.ops[1]
            if taken == (d.extra == "eq"): return self.drop(self.settle(st, v, True), v)     # null: nothing was created
        return st
