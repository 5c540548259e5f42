"""Field-based, flow-insensitive object flow: which constructors' objects may a value denote?

Nodes are SSA values, struct fields ('F:S.f', arrays collapsed into the field), locals and globals;
edges are copies.  Objects are constructors: functions returning a pointer they allocated (directly
or through another constructor).  Field-sensitive 'must be set when returned' summaries tell which
function-pointer slots each object has."""
import collections
from prog import Client, explore, ALLOC_FNS
import ir

ZERO = {"frt_ecalloc", "calloc"}

class Flow:
    def __init__(self, P, roots=None):
        self.P = P
        self.seed = set()         # objects a caller of the library can hold
        self.ctor = {}            # qname -> Summary of the returned object
        self._roots = {}
        self._ctors()
        for _ in range(8):
            self._graph()
            v = self.visible()
            if v == self.seed: break
            self.seed = v

    # ---------------------------------------------------------------- constructors
    def root(self, f, v, depth=0):
        """root object of a pointer value: an alloc/constructor call SSA name, an arg, or None"""
        P = self.P
        seen = set()
        work = [v]; out = set()
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x)
            if x in f.args: out.add(x); continue
            d = f.defs.get(x)
            if d is None: continue
            if d.op in ir._CASTS: work.append(d.ops[0])
            elif d.op == "phi": work += [o for o in d.ops if o in f.defs or o in f.args]
            elif d.op == "select": work += d.ops[1:]
            elif d.op == "getelementptr":
                # an embedded super struct or the first member is the object itself
                if not P.field_of_gep(f, d): work.append(d.ops[0])
                else: out.add(x)
            elif d.op == "call" and d.extra == "direct" and depth < 3:
                t = P.lookup(f.mod, d.callee)
                ps = self._returns_param(t, depth + 1) if t is not None else ()
                if ps: work += [d.ops[n] for n in ps if n < len(d.ops) and isinstance(d.ops[n], str)]
                else: out.add(x)
            else: out.add(x)
        return out

    def _rets(self, f):
        return [i.ops[0] for i in f.insts() if i.op == "ret" and i.ops and i.ops[0]]

    def _ctors(self):
        P = self.P
        self.alloc_of = collections.defaultdict(set)       # qname -> call SSA names whose result it returns
        ch = True
        isc = set()
        roots = {q: {r for rv in self._rets(f) if rv != "null" for r in self.root(f, rv)} for q, f in P.funcs.items() if f.ret == "ptr"}
        ALL = ("frt_emalloc", "frt_ecalloc", "frt_erealloc", "malloc", "calloc")
        while ch:
            ch = False
            for q, rs in roots.items():
                if q in isc or not rs: continue
                f = P.funcs[q]
                al = set()
                for r in rs:
                    d = f.defs.get(r)
                    if d is None or d.op != "call" or d.extra != "direct": continue
                    t = P.lookup(f.mod, d.callee)
                    if d.callee in ALL or (t is not None and t.qname in isc): al.add(r)
                good = bool(al)
                if good and len(rs) > 1:
                    # several objects: one constructor only if it goes on to set slots of what it returns
                    good = any(i.op == "store" and i.ty == "ptr" and P.expr(f, i.ops[1])[0] == "field" and rs & self._base_roots(f, i.ops[1]) for i in f.insts())
                if good: self.alloc_of[q] = al; isc.add(q); ch = True
        for a in ("frt_emalloc", "frt_ecalloc", "frt_erealloc"): isc.discard(a)
        self.is_ctor = isc

    def summary(self, q, seen=()):
        """must-set slots of the object returned by constructor q:
           {slot: set of function names / 'null' / '?'} ; plus '#zero' if zero-allocated"""
        if q in self.ctor: return self.ctor[q]
        if q in seen: return None
        f = self.P.funcs[q]
        self.ctor[q] = {}
        res = self._run(f, None, seen + (q,))
        self.ctor[q] = res
        return res

    def psummary(self, q, k, seen=()):
        """must-set slots of the object passed as argument k"""
        key = (q, k)
        if key in self.ctor: return self.ctor[key]
        self.ctor[key] = {}
        f = self.P.funcs[q]
        res = self._run(f, f.args[k], seen + (q,)) if self._sets_slots(q, k) else {}
        self.ctor[key] = res
        return res

    def _sets_slots(self, q, k, depth=0):
        P = self.P; f = P.funcs[q]
        if k >= len(f.args): return False
        for i in f.insts():
            if i.op == "store" and i.ty == "ptr":
                e = P.expr(f, i.ops[1])
                if e[0] == "field" and f.args[k] in self._base_roots(f, i.ops[1]): return True
        if depth < 3:
            for c in P.calls[q]:
                if c.extra != "direct": continue
                t = P.lookup(f.mod, c.callee)
                if t is None or t.qname == q: continue
                for n, o in enumerate(c.ops):
                    if isinstance(o, str) and f.args[k] in self.root(f, o) and self._sets_slots(t.qname, n, depth + 1): return True
        return False

    def _base_roots(self, f, addr):
        """roots of the object a field address belongs to (only direct members)"""
        d = f.defs.get(addr)
        n = 0
        while d is not None and (d.op == "getelementptr" or d.op in ir._CASTS):
            if d.op == "getelementptr" and self.P.field_of_gep(f, d): n += 1
            nxt = d.ops[0]
            if nxt in f.args: return {nxt} if n <= 1 else set()
            d2 = f.defs.get(nxt)
            if d2 is None: return set()
            if d2.op not in ("getelementptr",) and d2.op not in ir._CASTS: return self.root(f, nxt) if n <= 1 else set()
            d = d2
        return self.root(f, addr)

    def _run(self, f, target, seen):
        """target None: object returned; else: the argument named"""
        P = self.P; self_ = self
        outs = []
        born = self.alloc_of.get(f.qname, ())
        class Cl(Client):
            # state: frozenset of (root, slot, value)
            def step(self, i, st):
                if i.op == "store" and i.ty == "ptr":
                    e = P.expr(f, i.ops[1])
                    if e[0] == "field":
                        rs = self_._base_roots(f, i.ops[1])
                        if rs:
                            val = self_._val(f, i.ops[0])
                            st = frozenset(x for x in st if not (x[0] in rs and x[1] == e[2]))
                            st = st | {(r, e[2], v) for r in rs for v in val}
                elif i.op == "ret":
                    if target is None:
                        if i.ops and i.ops[0]: outs.append((self_.root(f, i.ops[0]), st, i.ops[0]))
                    else: outs.append(({target}, st, None))
                return st
            def call(self, i, st):
                if i.res and i.res in born: st = st | {(i.res, "#born", "1")}
                if i.extra == "direct":
                    t = P.lookup(f.mod, i.callee)
                    if i.res and i.callee in ("frt_ecalloc", "calloc"): st = st | {(i.res, "#zero", "1")}
                    if t is not None and t.qname not in seen:
                        if i.res and t.qname in self_.is_ctor:
                            s = self_.summary(t.qname, seen)
                            if s: st = st | {(i.res, k, v) for k, vs in s.items() for v in vs}
                        for n, o in enumerate(i.ops):
                            if isinstance(o, str) and (o in f.defs or o in f.args):
                                s = self_.psummary(t.qname, n, seen)
                                if s:
                                    for r in self_.root(f, o):
                                        st = frozenset(x for x in st if not (x[0] == r and x[1] in s)) | {(r, k, v) for k, vs in s.items() for v in vs}
                        # out-parameters returned unchanged (x = setup(x, ...))
                        if i.res:
                            for n in self_._returns_param(t):
                                if n < len(i.ops):
                                    for r in self_.root(f, i.ops[n]):
                                        st = st | {(i.res, s_, v) for (r_, s_, v) in st if r_ == r}
                return [st], None
        try:
            explore(P, f, frozenset(), Cl(P), max_states=20000)
        except Exception:
            return {}
        res = None
        for rs, st, rv in outs:
            if target is None and rv in ("null",): continue
            for r in rs:
                d = f.defs.get(r)
                if target is None and (d is None or d.op != "call" or r not in self.alloc_of[f.qname]):
                    if not (r in f.args): continue
                if target is None and r in born and (r, "#born", "1") not in st: continue     # not created on this path
                cur = collections.defaultdict(set)
                for (r_, s, v) in st:
                    if r_ == r: cur[s].add(v)
                if res is None: res = dict(cur)
                else:
                    res = {k: res[k] | cur[k] for k in res if k in cur}
        if res: res.pop("#born", None)
        return res or {}

    def _returns_param(self, t, depth=0):
        """indices of the parameters t may return unchanged, if it returns nothing else"""
        k = ("rp", t.qname)
        if k in self._roots: return self._roots[k]
        self._roots[k] = ()
        r = set()
        for rv in self._rets(t):
            if rv == "null": continue
            for x in self.root(t, rv, depth):
                if x in t.args: r.add(t.args.index(x))
                else: return ()
        self._roots[k] = tuple(sorted(r))
        return self._roots[k]

    def _val(self, f, v, depth=0):
        if v == "null": return {"null"}
        if v.startswith("@"): return {v[1:]}
        d = f.defs.get(v)
        if d is None or depth > 5: return {"?"}
        if d.op in ("phi", "select"):
            r = set()
            for o in (d.ops if d.op == "phi" else d.ops[1:]): r |= self._val(f, o, depth + 1)
            return r
        return {"?"}

    # ---------------------------------------------------------------- copy graph
    def _graph(self):
        """Andersen-style, field-based, with the call graph of vtable calls built on the fly."""
        P = self.P
        self.succ = collections.defaultdict(set)
        self.pts = collections.defaultdict(set)
        self.work = []
        self.S = {q: self.summary(q) for q in self.is_ctor if q in P.funcs}
        self.impl = collections.defaultdict(set)            # function -> objects that have it in a slot
        self.typed = collections.defaultdict(set)           # struct -> objects with slots of that struct
        self.abstract = set()
        for q, cs in P.calls.items():
            for c in cs:
                if c.res and c.res in self.alloc_of.get(q, ()) and c.extra == "direct":
                    t = P.lookup(c.fn.mod, c.callee)
                    if t is not None and len(self.S.get(t.qname, {})) < len(self.S.get(q, {})): self.abstract.add(t.qname)
        for q, f in P.funcs.items():
            for i in f.insts():
                if i.op == "store" and i.ty == "ptr":
                    e = P.expr(f, i.ops[1])
                    if e[0] == "field" and e[2] in P.slots:
                        for r in self._base_roots(f, i.ops[1]):
                            d = f.defs.get(r)
                            if d is not None and d.op == "call" and d.extra == "direct":
                                t = P.lookup(f.mod, d.callee)
                                if t is not None and t.qname in self.S and e[2] not in self.S[t.qname]: self.abstract.add(t.qname)
        for o, sl in self.S.items():
            f = P.funcs[o]
            for k, vs in sl.items():
                if k in P.slots: self.typed[k.split(".")[0]].add(o)
                for v in vs:
                    t = P.lookup(f.mod, v) if v not in ("?", "null", "1") else None
                    if t is not None: self.impl[t.qname].add(o)
        # an object may get its slot implementations from another module (static functions)
        direct = {t.qname for q, cs in P.calls.items() for c in cs if c.extra == "direct" for t in P.targets(c)}
        self.selfonly = {q for q in self.impl if q not in direct}
        self.vcalls = []
        for q, f in P.funcs.items():
            for i in f.insts():
                if i.op == "store" and i.ty == "ptr":
                    self.edge(self.val(f, i.ops[0]), self.addr(f, i.ops[1]))
                elif i.op in ("phi", "select") and i.ty == "ptr":
                    for o in (i.ops if i.op == "phi" else i.ops[1:]): self.edge(self.val(f, o), ("V", q, i.res))
                elif i.op == "ret" and i.ops and i.ops[0]:
                    self.edge(self.val(f, i.ops[0]), ("R", q))
                elif i.op == "call":
                    self._call(f, i)
        # arguments of exported functions may be any concrete object of their type
        for q, f in P.funcs.items():
            if f.internal: continue
            for k, t in enumerate(param_types(f)):
                if k < len(f.args) and t.endswith("*"):
                    for o in self.concrete(t.rstrip("*")):
                        if o in self.seed: self.add(("V", q, f.args[k]), o)
        self.vtargets = {}
        self.fallback = False
        for rnd in range(60):
            self._prop()
            ch = False
            for c in self.vcalls:
                for t in self._vt(c):
                    k = (c.uid, c.fn.qname, t.qname)
                    if k not in self.vtargets:
                        self.vtargets[k] = 1; ch = True
                        self._bind(c.fn, c, t)
            if not ch:
                # receivers whose objects stay unknown may be any concrete object of their type
                if self.fallback: break
                self.fallback = True

    def concrete(self, st):
        st = st.strip()
        return [o for o in self.typed.get(st, ()) if o not in self.abstract]

    def visible(self):
        """objects callers of the library can get hold of: results of exported functions, and of
        the operations of such objects, transitively"""
        P = self.P
        vis = set(); seen = set()
        work = [q for q, f in P.funcs.items() if not f.internal]
        while work:
            q = work.pop()
            if q in seen: continue
            seen.add(q)
            objs = set(self.pts.get(("R", q), ()))
            if q in self.is_ctor: objs.add(q)
            for o in objs:
                if o in vis: continue
                vis.add(o)
                for k, vs in self.S.get(o, {}).items():
                    for v in vs:
                        t = P.lookup(P.funcs[o].mod, v) if v not in ("?", "null", "1") else None
                        if t is not None: work.append(t.qname)
        self.visops = seen
        return vis

    def edge(self, a, b):
        if a and b and a != b and b not in self.succ[a]:
            self.succ[a].add(b)
            if self.pts.get(a): self.work.append(a)

    def add(self, n, o):
        if o not in self.pts[n] and self._admits(n, o): self.pts[n].add(o); self.work.append(n)

    def _admits(self, n, o):
        # the receiver of a slot implementation is an object that has it in a slot
        if n[0] == "V" and n[1] in self.selfonly and self.P.funcs[n[1]].args and n[2] == self.P.funcs[n[1]].args[0]:
            return o in self.impl[n[1]] or not self.S.get(o)
        return True

    def _prop(self):
        while self.work:
            n = self.work.pop()
            for m in self.succ.get(n, ()):
                for o in self.pts[n]:
                    if o not in self.pts[m] and self._admits(m, o):
                        self.pts[m].add(o); self.work.append(m)

    def receiver(self, c):
        """(node, struct, slot) of a vtable call, or None"""
        P = self.P
        s = P.slot(c)
        if not s: return None
        e = P.expr(c.fn, c.callee)
        return self._node(c.fn, e[1][1]), s.split(".")[0], s

    def recv_objects(self, c):
        r = self.receiver(c)
        if r is None: return set()
        n, st, s = r
        return {o for o in self.pts.get(n, ()) if o in self.typed.get(st, ())}

    def _vt(self, c):
        P = self.P
        r = self.receiver(c)
        out = set()
        if r is None: return P.targets(c)
        objs = self.recv_objects(c)
        if not objs and self.fallback: objs = self.concrete(r[1])
        for o in objs:
            for v in self.S[o].get(r[2], ()):
                if v == "?": return P.targets(c)
                t = P.lookup(P.funcs[o].mod, v) if v != "null" else None
                if t is not None: out.add(t.qname)
        return [P.funcs[q] for q in out]

    def _call(self, f, c):
        P = self.P; q = f.qname
        if c.extra == "direct" and c.callee in ("frt_emalloc", "frt_ecalloc", "frt_erealloc", "malloc", "calloc", "realloc"):
            if c.res and c.res in self.alloc_of.get(q, ()): self.add(("V", q, c.res), q)
            if c.callee in ("frt_erealloc", "realloc") and c.res: self.edge(self.val(f, c.ops[0]), ("V", q, c.res))
            return
        if c.extra == "direct" and (c.callee or "").startswith(("llvm.memcpy", "memcpy", "memmove", "llvm.memmove")):
            self.edge(self.val(f, c.ops[1]), self.val(f, c.ops[0]))
            return
        if c.res and c.res in self.alloc_of.get(q, ()): self.add(("V", q, c.res), q)
        if c.extra != "direct" and P.slot(c):
            self.vcalls.append(c); return
        for t in P.targets(c): self._bind(f, c, t)

    def _bind(self, f, c, t):
        q = f.qname
        for n, o in enumerate(c.ops):
            if n < len(t.args) and isinstance(o, str):
                s = self.val(f, o)
                if s:
                    self.edge(s, ("V", t.qname, t.args[n]))
                    if self._writes_through(t, n): self.edge(("V", t.qname, t.args[n]), s)
        if c.res and not (t.qname in self.is_ctor and c.res in self.alloc_of.get(q, ())):
            self.edge(("R", t.qname), ("V", q, c.res))

    def _writes_through(self, t, n):
        k = ("wt", t.qname, n)
        if k not in self._roots:
            self._roots[k] = any(i.op == "store" and i.ty == "ptr" and self.addr(t, i.ops[1]) == ("V", t.qname, t.args[n]) for i in t.insts())
        return self._roots[k]

    def val(self, f, v):
        """node of a value"""
        if v is None or v == "null" or not isinstance(v, str): return None
        return self._node(f, self.P.expr(f, v), v)

    def _node(self, f, e, v=None):
        if e[0] == "arg": return ("V", f.qname, f.args[e[1]])
        if e[0] == "load": return self._loc(f, e[1])
        if e[0] in ("call", "phi", "select"): return ("V", f.qname, e[1].res)
        if e[0] in ("field", "index", "alloca", "global"): return self._loc(f, e)
        return None

    def addr(self, f, v):
        return self._loc(f, self.P.expr(f, v))

    def _loc(self, f, e):
        while e[0] == "index": e = e[1]
        if e[0] == "field": return "F:" + e[2]
        if e[0] == "alloca": return ("L", f.qname, e[1])
        if e[0] == "global": return "G:" + e[1]
        return self._node(f, e)

    def reachable(self):
        """functions reachable from exported ones with resolved vtable calls"""
        P = self.P
        vt = collections.defaultdict(set)
        for (uid, q, t) in self.vtargets: vt[q].add(t)
        seen = set(); work = [q for q, f in P.funcs.items() if not f.internal] + sorted(self.visops)
        while work:
            q = work.pop()
            if q in seen: continue
            seen.add(q)
            work += list(vt[q])
            f = P.funcs[q]
            for c in P.calls[q]:
                if c.extra == "direct" or not P.slot(c): work += [t.qname for t in P.targets(c)]
                if c.extra != "direct" and P.slot(c) and not self.typed.get(P.slot(c).split(".")[0]): work += [t.qname for t in P.targets(c)]
                for o in c.ops:
                    if isinstance(o, str) and o.startswith("@"):
                        t = P.lookup(f.mod, o[1:])
                        if t is not None: work.append(t.qname)
        return seen

def param_types(f):
    m = f.mod
    sp = m.meta.get(getattr(f, "dbg", None) or "", "")
    t = ir._mfield(sp, "type")
    st = m.meta.get(t or "", "")
    ts = ir._mfield(st, "types")
    lst = m.meta.get(ts or "", "")
    refs = lst[lst.index("{") + 1:lst.rindex("}")].split(",") if "{" in lst else []
    return [ir.di_type_name(m, r.strip().lstrip("!")) for r in refs[1:]]
