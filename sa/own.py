"""Which pointers are null, not yet assigned, or already freed along each path.

State: frozenset of (key, value), each key once:
  local                      "null", "uninit" or ("o", id)   pointer locals kept in memory (volatile ones), null and aliases
  ("freed", id)              line                            the object was handed to a function that frees it on every path
  ("zero", id)               fields stored since             freshly zeroed memory: every other pointer field is null
  ("gone", id, field)        line                            what this field points to was freed and the field not changed since
  ("pool", id)               1                               the object was put in a global table (a free list, if it is freed elsewhere)
  ("down", id)               1                               its reference count went down (a release, if it is freed when it reaches 0)
  ("held", id)               1                               its reference count went up: the next release leaves a reference
  ("from", value)            (id, field)                     the value was read from this field and the field not changed since
  ("elem", value)            (id, field)                     the value was read from the table in this field
  ("left", id, field)        (function, line)                the same, possibly, after a call
An object is named by the SSA value (call result, argument, load) that produced it."""
from prog import Client, explore, AnalysisBroken

DEAD = frozenset({("dead", 1)})     # the path cannot get here

CLOSES = {"frt_close_lock": frozenset({0}),     # frees through the set that owns the lock
          "frt_erealloc": frozenset({0}), "realloc": frozenset({0})}      # what is left is the result

class Own:
    def __init__(self, P):
        self.P = P; self._cons = {}; self._need = {}; self._left = {}; self._mod = None; self._empty = None
    # ---- summaries
    def consumes(self, t):
        """indices of arguments freed on every normal return"""
        q = t.qname
        if q in self._cons: return self._cons[q]
        self._cons[q] = frozenset()
        if len(t.order) > 120 or not t.args: return self._cons[q]
        outs = []
        cl = OwnClient(self, t, None)
        try: explore(self.P, t, frozenset(), cl, on_exit=lambda k, st, i: outs.append(st) if k == "ret" and st != DEAD else None, max_states=8000)
        except AnalysisBroken: return self._cons[q]
        r = None; real = set()
        for st in outs:
            fr = {k[1] for k, v in st if isinstance(k, tuple) and k[0] == "freed"}
            kept = {k[1] for k, v in st if isinstance(k, tuple) and k[0] in ("pool", "down")}
            s = {n for n, a in enumerate(t.args) if a in fr or a in kept}
            real |= {n for n in s if t.args[n] in fr}
            r = s if r is None else r & s
        self._cons[q] = frozenset((r or set()) & real)
        return self._cons[q]
    def call_consumes(self, i):
        if i.extra == "direct" and i.callee == "free" and self.P.lookup(i.fn.mod, "free") is None: return frozenset({0})
        if i.extra == "direct" and i.callee in CLOSES: return CLOSES[i.callee]
        r = None
        for t in self.P.targets(i):
            s = self.consumes(t)
            r = s if r is None else r & s
        return r or frozenset()
    def needs(self, t, n):
        """called with argument n null the function uses it on every path"""
        key = (t.qname, n)
        if key in self._need: return self._need[key]
        self._need[key] = False
        if n >= len(t.args) or len(t.order) > 120: return False
        exits = []
        cl = OwnClient(self, t, lambda i, what, o: None)
        try: explore(self.P, t, frozenset({(t.args[n], "null")}), cl, on_exit=lambda k, st, i: exits.append(k) if st != DEAD else None, max_states=8000)
        except AnalysisBroken: return False
        self._need[key] = not exits and cl.hits > 0
        return self._need[key]
    def leaves(self, t):
        """{(argument index, field): (function, line)}: fields of arguments that outlive the call and may point to freed memory"""
        q = t.qname
        if q in self._left: return self._left[q]
        self._left[q] = {}
        if len(t.order) > 120 or not t.args: return {}
        r = {}
        def ex(k, st, i):
            if k != "ret" or st == DEAD: return
            for o, fa, at in self.dangling(t, st):
                if o in t.args: r[(t.args.index(o), fa)] = at
        try: explore(self.P, t, frozenset((c, "uninit") for c in cells(t)), OwnClient(self, t, lambda i, w, o: None, True), on_exit=ex, max_states=20000)
        except AnalysisBroken: r = {}
        self._left[q] = r
        return r
    @staticmethod
    def dangling(t, st):
        fr = {k[1] for k, v in st if isinstance(k, tuple) and k[0] in ("freed", "pool")}
        return [(k[1], k[2], (t.qname, v) if k[0] == "gone" else v) for k, v in st
                if isinstance(k, tuple) and k[0] in ("gone", "left") and k[1] not in fr]
    def call_needs(self, i, n):
        ts = self.P.targets(i)
        return bool(ts) and all(self.needs(t, n) for t in ts)
    def elem_of(self, f, v):
        """(field address, field) when v was read from an element of the table a field points to"""
        d = f.defs.get(v)
        if d is None or d.op != "load" or d.ty != "ptr": return None
        a = f.defs.get(d.ops[0])
        if a is not None and a.op == "getelementptr" and len(a.ops) == 2: a = f.defs.get(a.ops[0])
        if a is None or a.op != "load" or a.ty != "ptr": return None
        fa = self.P.field_addr(f, a.ops[0])
        return (a.ops[0], fa) if fa else None
    def empties(self, q):
        """fields whose tables lose elements: the function, or one it calls, frees what it read from them"""
        if self._empty is None:
            P = self.P
            own = {}
            for k, f in P.funcs.items():
                s = set()
                for c in P.calls[k]:
                    for n in self.call_consumes(c):
                        e = self.elem_of(f, c.ops[n]) if n < len(c.ops) else None
                        if e: s.add(e[1])
                own[k] = s
            ch = True
            while ch:
                ch = False
                for k in own:
                    for c in P.calls[k]:
                        for t in P.targets(c):
                            if not own[t.qname] <= own[k]: own[k] |= own[t.qname]; ch = True
            self._empty = own
        return self._empty[q]
    def mods(self, q):
        """fields the function or anything it calls may store to"""
        if self._mod is None:
            P = self.P
            own = {}
            for k, f in P.funcs.items():
                s = set()
                for i in f.insts():
                    if i.op == "store":
                        fa = P.field_addr(f, i.ops[1])
                        if fa: s.add(fa)
                own[k] = s
            ch = True
            while ch:
                ch = False
                for k in own:
                    for c in P.calls[k]:
                        for t in P.targets(c):
                            if not own[t.qname] <= own[k]: own[k] |= own[t.qname]; ch = True
            self._mod = own
        return self._mod[q]

class OwnClient(Client):
    def __init__(self, own, f, report, left=False):
        Client.__init__(self, own.P); self.own = own; self.left = left; self.f = f; self.report = report; self.hits = 0
        self.cells = cells(f)
        self.emptied = set()
        if left:
            for c in own.P.calls[f.qname]:
                for t in own.P.targets(c): self.emptied |= own.empties(t.qname)
        self.given = set()          # fields whose pointees this function releases
        for c in own.P.calls[f.qname]:
            for n in own.call_consumes(c):
                d = f.defs.get(c.ops[n]) if n < len(c.ops) else None
                if d is not None and d.op == "load": self.given.add(own.P.field_addr(f, d.ops[0]))
    def get(self, st, v):
        if v == "null": return "null"
        for k, x in st:
            if k == v: return x
        d = self.f.defs.get(v)
        if d is None: return ("o", v) if v in self.f.args else None
        if d.op in ("bitcast", "freeze", "inttoptr"): return self.get(st, d.ops[0])
        if d.op == "call" and d.ty == "ptr" or d.op == "load" and d.ty == "ptr" and d.ops[0] not in self.cells: return ("o", v)
        return None
    def put(self, st, k, v):
        st = frozenset(x for x in st if x[0] != k)
        return st | {(k, v)} if v is not None else st
    def forget(self, st, v):
        """v is computed anew: what was known about the old one goes"""
        if v is None: return st
        return frozenset(x for x in st if x[0] != v and not (isinstance(x[0], tuple) and x[0][1] == v) and x[1] != ("o", v))
    def base(self, v):
        d = self.f.defs.get(v)
        while d is not None and d.op in ("getelementptr", "bitcast"):
            v = d.ops[0]; d = self.f.defs.get(v)
        return v
    def freed(self, st, v):
        x = self.get(st, v)
        if isinstance(x, tuple):
            for k, l in st:
                if k == ("freed", x[1]): return l
        return None
    def oid(self, st, v):
        x = self.get(st, v)
        return x[1] if isinstance(x, tuple) else None
    def fld(self, st, a):
        """(object id, field) of a pointer field's address"""
        d = self.f.defs.get(a)
        fa = self.P.field_addr(self.f, a)
        if not fa: return None, None
        if d is not None and d.op == "getelementptr" and any(not o.lstrip("-").isdigit() for o in d.ops[1:]): return None, None
        return self.oid(st, self.base(a)), fa
    def fail(self, i, what, v):
        self.hits += 1
        if self.report: self.report(i, what, v)
    def use(self, i, v, st):
        """-> False if the use cannot succeed"""
        b = self.base(v)
        x = self.get(st, b)
        if x in ("null", "uninit"):
            self.fail(i, x, b); return False
        l = self.freed(st, b)
        if l is not None:
            self.fail(i, ("freed", l), b); return False
        return True
    def step(self, i, st):
        if st == DEAD: return st
        if i.op == "load":
            if i.ops[0] in self.cells:
                x = self.get(st, i.ops[0])
                return self.put(self.forget(st, i.res), i.res, x)
            if not self.use(i, i.ops[0], st): return DEAD
            st = self.forget(st, i.res)
            if self.left and i.ty == "ptr":
                e = self.own.elem_of(self.f, i.res)
                if e and e[1] in self.emptied:
                    o = self.oid(st, self.base(e[0]))
                    if o is not None: st = self.put(st, ("elem", i.res), (o, e[1]))
            if i.ty == "ptr":
                o, fa = self.fld(st, i.ops[0])
                if o is not None:
                    for k, v in st:
                        if k == ("zero", o) and fa not in v: return self.put(st, i.res, "null")
                        if k == ("gone", o, fa): return self.put(st, ("freed", i.res), v)
                    if fa in self.given:
                        for k, v in st:
                            if k[0] == "from" and v == (o, fa) and k[1] != i.res: return self.put(st, i.res, ("o", k[1]))
                        st = self.put(st, ("from", i.res), (o, fa))
            return st
        if i.op == "store":
            if i.ops[1] in self.cells:
                return self.put(st, i.ops[1], self.get(st, i.ops[0]))
            if not self.use(i, i.ops[1], st): return DEAD
            if self.base(i.ops[1]).startswith("@") and i.ops[0] in self.f.args: return self.put(st, ("pool", i.ops[0]), 1)
            fa = self.P.field_addr(self.f, i.ops[1])
            if fa:
                o, _ = self.fld(st, i.ops[1])
                if fa.endswith(".ref_cnt") and o is not None:
                    d = self.f.defs.get(i.ops[0])
                    if d is not None and d.op == "add" and d.ops[1] == "-1": st = self.put(st, ("down", o), 1)
                    else: st = self.put(st, ("held", o), 1)
                st = frozenset((k, v | {fa}) if isinstance(k, tuple) and k[0] == "zero" and (o is None or k[1] == o) else (k, v)
                               for k, v in st if not (isinstance(k, tuple) and (k[0] == "from" and v[1] == fa or k[0] in ("gone", "left") and k[2] == fa)))
            return st
        if i.op == "select" and i.ty == "ptr":
            a, b = self.get(st, i.ops[1]), self.get(st, i.ops[2])
            return self.put(st, i.res, a if a == b and a != "null" else None)
        return st
    def phi(self, i, prev, st):
        if i.ty != "ptr" or st == DEAD: return st
        for v, b in i.extra:
            if b == prev:
                x = self.get(st, v)
                # null merged into a variable is only as good as the flags that guard its use
                return self.put(self.forget(st, i.res), i.res, x if isinstance(x, tuple) else None)
        return st
    def call(self, i, st):
        if st == DEAD: return [], []
        c = i.callee if i.extra == "direct" else None
        if c and c.startswith("llvm."): return [st], None
        P = self.P
        if i.extra != "direct" and not self.use(i, i.callee, st): return [], []
        ts = P.targets(i)
        for n, o in enumerate(i.ops):
            if not isinstance(o, str): continue
            x = self.get(st, o)
            if x == "uninit" or x == "null" and self.own.call_needs(i, n):
                self.fail(i, x, o); return [], []
            l = self.freed(st, o)
            if l is not None and (c == "free" or ts):
                self.fail(i, ("freed", l), o); return [], []
        # what the callee may change
        esc = {self.oid(st, o) for o in i.ops if isinstance(o, str)} | {self.oid(st, self.base(o)) for o in i.ops if isinstance(o, str) and ts}
        mods = set()
        for t in ts: mods |= self.own.mods(t.qname)
        keep = []
        for k, v in st:
            if isinstance(k, tuple):
                if k[0] == "zero" and k[1] in esc and c != "free": continue
                if k[0] in ("gone", "left") and k[2] in mods or k[0] == "from" and v[1] in mods: continue
            keep.append((k, v))
        st = frozenset(keep)
        exc = st
        for n in self.own.call_consumes(i):
            if n >= len(i.ops): continue
            x = self.get(st, i.ops[n])
            d = self.f.defs.get(i.ops[n])
            if c == "free" and d is not None and d.op == "getelementptr" and len(d.ops) == 2 and d.ops[1].startswith("-"):
                x = self.get(st, d.ops[0])      # a header in front of the array
            if isinstance(x, tuple):
                if (("held", x[1]), 1) in st:
                    st = self.put(st, ("held", x[1]), None); continue
                st = self.put(st, ("freed", x[1]), i.line)
                st = frozenset(y for y in st if y[0] != ("zero", x[1]))
                for k, v in st:
                    if k == ("from", x[1]) and v[1] not in mods:
                        st = self.put(st, ("gone",) + v, i.line); break
        if self.left and self.emptied and ts:
            em = set()
            for t in ts: em |= self.own.empties(t.qname)
            if em:
                for k, v in list(st):
                    if k[0] == "elem" and v[1] in em and v[0] in {self.oid(st, o) for o in i.ops if isinstance(o, str)}:
                        st = self.put(self.put(st, k, None), ("freed", k[1]), i.line)
        if self.left:
            for t in ts:
                for (n, fa), at in self.own.leaves(t).items():
                    if n < len(i.ops):
                        x = self.get(st, i.ops[n])
                        if isinstance(x, tuple): st = self.put(st, ("left", x[1], fa), at)
        if i.res is not None:
            st = self.forget(st, i.res)
            if c in ("frt_ecalloc", "calloc"): st = self.put(st, ("zero", i.res), frozenset())
        return [st], [exc]
    def branch(self, i, cond, taken, st):
        if st == DEAD: return None
        d = self.f.defs.get(cond)
        if d is not None and d.op == "icmp" and d.extra in ("eq", "ne") and "null" in d.ops:
            v = d.ops[0] if d.ops[1] == "null" else d.ops[1]
            isnull = taken == (d.extra == "eq")
            if self.get(st, v) == "null": return st if isnull else None
        return st

def cells(f):
    """pointer locals kept in memory whose address is not passed on"""
    r = getattr(f, "_cells", None)
    if r is not None: return r
    al = {i.res for i in f.insts() if i.op == "alloca" and i.ty == "ptr"}
    for i in f.insts():
        if i.op == "load": continue
        for n, o in enumerate(i.ops):
            if o in al and not (i.op == "store" and n == 1): al.discard(o)
    f._cells = al
    return al
