"""Whole-program model over the parsed IR: value expressions, access paths, vtable slots,
call graph, the TRY/RAISE exception model and a path-sensitive state explorer."""
import re, os, collections
import irbuild, ir
from irbuild import AnalysisBroken

ALLOC_FNS = {"frt_emalloc", "frt_ecalloc", "frt_erealloc", "malloc", "calloc", "realloc",
             "frt_estrdup", "frt_estrcat", "frt_vstrfmt", "frt_strfmt", "frt_estrndup"}
NORETURN = {"abort", "exit", "__assert_fail", "longjmp", "rb_raise", "rb_exc_raise", "frb_raise",
            "rb_bug", "rb_fatal", "rb_notimplement", "siglongjmp"}
RAISE_FNS = {"frt_xraise", "FRT_RAISE"}

class Program:
    def __init__(self, ruby=False, inline=False):
        self.repo = irbuild.REPO
        self.inlined = inline
        jobs = irbuild.build_core()
        if inline:
            with irbuild.ThreadPoolExecutor(8) as ex: jobs = list(ex.map(lambda j: (j[0], irbuild.inline(j[1])), jobs))
        self.core_mods = [ir.parse(ll, s, self.repo) for s, ll in jobs]
        self.ruby_mods = []
        if ruby:
            self.ruby_mods = [ir.parse(ll, s, self.repo) for s, ll in irbuild.build_ruby()]
        self.mods = self.core_mods + self.ruby_mods
        self.funcs = {}
        self.by_mod = {}
        seen = collections.Counter(f for m in self.mods for f in m.funcs)
        for m in self.mods:
            tbl = {}
            for n, f in m.funcs.items():
                if n.startswith("RB_") or n.startswith("rbimpl") or n.startswith("rb_") or n.startswith("ruby"):
                    # inline functions of ruby's headers
                    pass
                q = n if (seen[n] == 1 or not f.internal) else n + "@" + os.path.basename(m.src)
                if q in self.funcs and not f.internal:
                    q = n + "@" + os.path.basename(m.src)
                f.qname = q; f.short = n
                self.funcs[q] = f
                tbl[n] = f
            self.by_mod[m.src] = tbl
        self._slots()
        self._callgraph()
        self._raise()

    # ------------------------------------------------------------ lookup
    def fn(self, name, required=True):
        f = self.funcs.get(name)
        if f is None:
            c = [x for q, x in self.funcs.items() if x.short == name]
            if len(c) == 1: return c[0]
            if required:
                raise AnalysisBroken("anchor function not found: %s" % name)
        return f

    def has(self, name):
        return self.fn(name, False) is not None

    def lookup(self, mod, name):
        t = self.by_mod[mod.src].get(name)
        if t is not None: return t
        return self.funcs.get(name)

    def struct_fields(self, sname):
        for m in self.mods:
            if "struct." + sname in m.fields: return m.fields["struct." + sname]
        return None

    def di_struct(self, sname):
        for m in self.mods:
            if sname in m.di_members and m.di_members[sname]:
                return [(x[2], ir.di_type_name(m, x[4])) for x in m.di_members[sname]]
        return None

    # ------------------------------------------------------------ values
    def field_of_gep(self, fn, g):
        """names of struct fields traversed by a GEP -> list of 'Struct.field'"""
        t = g.ty; m = fn.mod
        idx = g.ops[1:]
        out = []
        # first index steps over the pointer
        for k, ix in enumerate(idx):
            if k == 0:
                if ix != "0": out.append("[]")
                continue
            if t.startswith("%struct") or t.startswith('%"struct'):
                nm = t.lstrip("%").strip('"')
                fl = m.fields.get(nm)
                n = int(ix)
                if fl is None:
                    out.append("%s.%d" % (nm, n)); t = self._elt(m, t, n); continue
                name, et, bits = fl[n]
                sname = re.sub(r'\.\d+$', '', nm[len("struct."):])
                if n == 0 and et.startswith("%struct"):
                    pass    # embedded "super" at offset 0: transparent
                else:
                    out.append("%s.%s" % (sname, name))
                t = et
            elif t.startswith("["):
                mm = re.match(r'\[\d+ x (.*)\]$', t); t = mm.group(1)
                if ix != "0" or not out or True:
                    if not (ix == "0" and k == len(idx) - 1): out.append("[]")
            elif t.startswith("%union"):
                t = self._elt(m, t, int(ix))
            else:
                out.append("[]")
        return out

    def _elt(self, m, t, n):
        body = m.structs.get(t.lstrip("%").strip('"'), "opaque")
        if body == "opaque": return "i8"
        es = ir.split_top(body[1:-1])
        return es[n] if n < len(es) else "i8"

    def expr(self, fn, v, depth=0, phis=True):
        """Value as a nested tuple."""
        if v is None: return ("none",)
        if depth > 40: return ("deep",)
        if v == "null" : return ("const", 0)
        if re.match(r'^-?\d+$', v): return ("const", int(v))
        if v in ("true", "false"): return ("const", int(v == "true"))
        if re.match(r'^-?\d+\.\d+e', v) or v.startswith("0x"): return ("fconst", v)
        if v.startswith("@"): return ("global", v[1:].strip('"'))
        if v.startswith("getelementptr"):
            mm = re.search(r'@("[^"]+"|[\w.$]+)', v)
            return ("global", mm.group(1).strip('"')) if mm else ("expr", v)
        if v in fn.args: return ("arg", fn.args.index(v))
        d = fn.defs.get(v)
        if d is None: return ("undef", v)
        if d.op == "load": return ("load", self.expr(fn, d.ops[0], depth+1, phis), d)
        if d.op == "getelementptr":
            b = self.expr(fn, d.ops[0], depth+1, phis)
            fs = self.field_of_gep(fn, d)
            for f in fs:
                if f == "[]":
                    b = ("index", b, d)
                else:
                    b = ("field", b, f)
            return b
        if d.op in ir._CASTS: return self.expr(fn, d.ops[0], depth+1, phis)
        if d.op == "alloca": return ("alloca", v)
        if d.op == "call": return ("call", d)
        if d.op == "phi":
            if not phis: return ("phi", d)
            vals = []
            for o in d.ops:
                if o == v: continue
                x = ("phi", fn.defs[o]) if (o in fn.defs and fn.defs[o].op == "phi") else self.expr(fn, o, depth+1, False)
                if x not in vals: vals.append(x)
            if len(vals) == 1: return vals[0]
            return ("phi", d)
        if d.op == "select": return ("select", d)
        if d.op in ("icmp", "fcmp"):
            return ("cmp", d.extra, self.expr(fn, d.ops[0], depth+1, phis), self.expr(fn, d.ops[1], depth+1, phis))
        if len(d.ops) == 2:
            return ("bin", d.op, self.expr(fn, d.ops[0], depth+1, phis), self.expr(fn, d.ops[1], depth+1, phis))
        return ("op", d.op, d)

    def loc(self, fn, v, depth=0):
        """Access path of a value / address, as a string."""
        return self.loc_e(fn, self.expr(fn, v))

    def loc_e(self, fn, e):
        k = e[0]
        if k == "arg": return "a%d" % e[1]
        if k == "global": return "g:" + e[1]
        if k == "alloca": return "l:" + e[1]
        if k == "load": return self.loc_e(fn, e[1])
        if k == "field": return self.loc_e(fn, e[1]) + "." + e[2].split(".")[-1]
        if k == "index": return self.loc_e(fn, e[1]) + "[]"
        if k == "call":
            d = e[1]
            return "r:%s#%d" % (self.callee_name(d), d.uid)
        if k == "phi": return "p:%s" % e[1].res
        if k == "const": return "k:%d" % e[1]
        if k == "bin" and e[1] in ("add", "sub", "and", "or"): return self.loc_e(fn, e[2]) + "~"
        return "?"

    def last_field(self, fn, v):
        """'Struct.field' if v is (a load of) a struct field."""
        e = self.expr(fn, v)
        while e[0] in ("load", "index"):
            e = e[1]
        return e[2] if e[0] == "field" else None

    def field_addr(self, fn, v):
        """'Struct.field' if v is the *address* of a struct field."""
        e = self.expr(fn, v)
        return e[2] if e[0] == "field" else None

    def field_load(self, fn, v):
        """'Struct.field' if v is a value loaded from a struct field."""
        e = self.expr(fn, v)
        if e[0] == "load" and e[1][0] == "field": return e[1][2]
        return None

    def _bitname(self, fld, lo):
        """bit-field member of a storage unit 'S.a|b|c' at bit lo"""
        sn, names = fld.split(".", 1)
        for m in self.mods:
            fl = m.fields.get("struct." + sn)
            if fl:
                for name, t, bits in fl:
                    if name == names:
                        for b, w, n in bits:
                            if b == lo: return "%s.%s" % (sn, n)
        return None

    def bit_read(self, e):
        """'Struct.member' if expression e is the value of a one-bit bit-field (0 / non-zero)"""
        sh = 0
        if e[0] == "bin" and e[1] == "and" and e[3][0] == "const":
            m = e[3][1]; e2 = e[2]
            if e2[0] == "bin" and e2[1] in ("lshr", "ashr") and e2[3][0] == "const": sh = e2[3][1]; e2 = e2[2]
            if m > 0 and m & (m - 1) == 0: sh += m.bit_length() - 1
            else: return None
            e = e2
        elif e[0] == "bin" and e[1] in ("lshr", "ashr") and e[3][0] == "const":
            if e[2][0] == "bin" and e[2][1] == "shl": return None
            sh = e[3][1]; e = e[2]
        if e[0] == "load" and e[1][0] == "field" and "|" in e[1][2]: return self._bitname(e[1][2], sh)
        return None

    def bit_write(self, fn, st):
        """store to a bit-field -> ('Struct.member', value expression) or None"""
        fa = self.field_addr(fn, st.ops[1])
        if not fa: return None
        e = self.expr(fn, st.ops[0])
        if "|" not in fa:
            # a bit-field alone in its storage unit
            if e[0] == "bin" and e[1] in ("or", "and"):
                a = e[2]
                if e[1] == "or" and a[0] == "bin" and a[1] == "and" and a[2] == ("load", self.expr(fn, st.ops[1]), a[2][-1]) and e[3][0] == "const": return fa, e[3]
                if e[1] == "and" and e[3][0] == "const" and a[0] == "load" and a[1] == self.expr(fn, st.ops[1]): return fa, ("const", 0)
            return None
        if e[0] == "bin" and e[1] == "or":
            a, b = e[2], e[3]
            if a[0] == "bin" and a[1] == "and" and a[3][0] == "const":
                msk = ~a[3][1]
                lo = (msk & -msk).bit_length() - 1
                n = self._bitname(fa, lo)
                if b[0] == "const": return n, ("const", b[1] >> lo)
                while b[0] == "bin" and b[1] in ("shl", "and") and b[3][0] == "const": b = b[2]
                return n, b
        if e[0] == "bin" and e[1] == "and" and e[3][0] == "const":
            msk = ~e[3][1]
            return self._bitname(fa, (msk & -msk).bit_length() - 1), ("const", 0)
        return None

    def flag_read(self, e):
        """'Struct.member' if e is the value of a field, bit-field or not"""
        n = self.bit_read(e)
        if n: return n
        if e[0] == "bin" and e[1] == "and" and e[3] == ("const", 1): e = e[2]
        if e[0] == "load" and e[1][0] == "field": return e[1][2]
        return None

    # ------------------------------------------------------------ slots / call graph
    def callee_name(self, c):
        if c.extra == "direct": return c.callee
        e = self.expr(c.fn, c.callee)
        if e[0] == "load" and e[1][0] == "field": return "->" + e[1][2]
        if e[0] == "global": return e[1]
        return "->?"

    def slot(self, c):
        n = self.callee_name(c)
        return n[2:] if n.startswith("->") and n != "->?" else None

    def _slots(self):
        self.slots = collections.defaultdict(set)
        self.slot_sites = collections.defaultdict(list)
        self.fnptr_globals = {}
        for q, f in self.funcs.items():
            for i in f.insts():
                if i.op == "store" and i.ty == "ptr":
                    fa = None
                    vals = self._fnvals(f, i.ops[0])
                    if not vals: continue
                    fa = self.field_addr(f, i.ops[1])
                    if fa:
                        for t in vals:
                            self.slots[fa].add(t.qname); self.slot_sites[fa].append((t.qname, i))
        # struct initialisers of globals
        for m in self.mods:
            for g, txt in m.globals.items():
                mm = re.search(r'(?:global|constant) (%struct\.[\w.]+|%"[^"]+") \{(.*)\}', txt)
                if mm:
                    st = mm.group(1).lstrip("%").strip('"')
                    fl = m.fields.get(st)
                    if fl:
                        parts = ir.split_top(mm.group(2))
                        for (nm, t, b), p in zip(fl, parts):
                            x = re.match(r'ptr @([\w.$]+)$', p.strip())
                            if x:
                                t2 = self.lookup(m, x.group(1))
                                if t2: self.slots["%s.%s" % (st[7:], nm)].add(t2.qname)

    def _fnvals(self, f, v, depth=0):
        if depth > 6: return []
        if v.startswith("@"):
            t = self.lookup(f.mod, v[1:].strip('"'))
            return [t] if t else []
        d = f.defs.get(v)
        if d is None: return []
        if d.op == "phi":
            r = []
            for o in d.ops: r += self._fnvals(f, o, depth+1)
            return r
        if d.op == "select":
            return self._fnvals(f, d.ops[1], depth+1) + self._fnvals(f, d.ops[2], depth+1)
        return []

    def _argvals(self, f, v, depth=0):
        if v in f.args: return [f.args.index(v)]
        d = f.defs.get(v)
        if d is None or depth > 5: return []
        if d.op in ("phi", "select"):
            r = []
            for o in (d.ops if d.op == "phi" else d.ops[1:]): r += self._argvals(f, o, depth+1)
            return r
        return []

    def targets(self, c):
        """Functions a call instruction may enter (defined ones)."""
        if c.extra == "direct":
            t = self.lookup(c.fn.mod, c.callee)
            return [t] if t else []
        s = self.slot(c)
        if s:
            return [self.funcs[q] for q in sorted(self.slots.get(s, ()))]
        e = self.expr(c.fn, c.callee)
        if e[0] == "arg":
            return [self.funcs[q] for q in sorted(self.argfns.get((c.fn.qname, e[1]), ()))]
        v = self._fnvals(c.fn, c.callee)
        return v

    def _callgraph(self):
        self.argfns = collections.defaultdict(set)
        for q, f in self.funcs.items():
            for i in f.insts():
                if i.op == "call" and i.extra == "direct":
                    t = self.lookup(f.mod, i.callee)
                    if t is None: continue
                    for k, o in enumerate(i.ops):
                        if isinstance(o, str) and o.startswith("@"):
                            x = self.lookup(f.mod, o[1:].strip('"'))
                            if x is not None: self.argfns[(t.qname, k)].add(x.qname)
        # function pointers handed to a constructor and stored by it in a slot
        for _ in range(3):
            for q, f in self.funcs.items():
                for i in f.insts():
                    if i.op == "store" and i.ty == "ptr":
                        fa = self.field_addr(f, i.ops[1])
                        if not fa: continue
                        for v in self._argvals(f, i.ops[0]):
                            for x in self.argfns.get((q, v), ()):
                                self.slots[fa].add(x)
                    elif i.op == "call" and i.extra == "direct":
                        t = self.lookup(f.mod, i.callee)
                        if t is None: continue
                        for k, o in enumerate(i.ops):
                            if isinstance(o, str) and o in f.args:
                                src = self.argfns.get((q, f.args.index(o)))
                                if src: self.argfns[(t.qname, k)] |= src
        self.calls = {}
        self.callers = collections.defaultdict(list)
        for q, f in self.funcs.items():
            cs = [i for i in f.insts() if i.op == "call"]
            self.calls[q] = cs
            for c in cs:
                for t in self.targets(c):
                    self.callers[t.qname].append(c)

    def up(self, fn, v, depth=0):
        """Expression of v; a parameter of an internal function with one call site is resolved in its caller."""
        e = self.expr(fn, v)
        return self._up(fn, e, depth)

    def _up(self, fn, e, depth=0):
        if e[0] == "arg" and fn.internal and depth < 6:
            cs = self.callers.get(fn.qname, [])
            if len(cs) == 1 and cs[0].extra == "direct" and e[1] < len(cs[0].ops) and isinstance(cs[0].ops[e[1]], str):
                return self._up(cs[0].fn, self.expr(cs[0].fn, cs[0].ops[e[1]]), depth + 1)
            return e
        if e[0] in ("load", "field", "index"):
            b = self._up(fn, e[1], depth)
            return (e[0], b) + e[2:] if b is not e[1] else e
        return e

    def reach(self, roots):
        seen = set(); st = [r for r in roots]
        while st:
            q = st.pop()
            if q in seen: continue
            seen.add(q)
            for c in self.calls.get(q, ()):
                for t in self.targets(c):
                    if t.qname not in seen: st.append(t.qname)
        return seen

    # ------------------------------------------------------------ exceptions
    def _raise(self):
        """may_raise: functions whose frame can be left by an exception (allocation failure excluded)."""
        self.may_raise = set()
        self.noreturn = set()
        changed = True
        while changed:
            changed = False
            for q, f in self.funcs.items():
                if q in self.may_raise or f.short in ALLOC_FNS: continue
                if self._leaves_exceptionally(f):
                    self.may_raise.add(q); changed = True
        # functions that never return normally (helpers that only raise)
        self.noreturn = {q for q, f in self.funcs.items() if f.short in RAISE_FNS}
        changed = True
        while changed:
            changed = False
            for q, f in self.funcs.items():
                if q not in self.may_raise or q in self.noreturn or len(f.order) > 12: continue
                if not any(c.callee in RAISE_FNS or _nr(self, c) for c in self.calls[q]): continue
                rets = []
                explore(self, f, (), Client(self), on_exit=lambda kind, st, i: rets.append(kind))
                if rets and "ret" not in rets: self.noreturn.add(q); changed = True

    def call_nonnull(self, c):
        """the call, if it returns, returns an object (never NULL)"""
        if c.extra == "direct" and c.callee in ("frt_emalloc", "frt_ecalloc", "frt_erealloc", "frt_estrdup"): return True
        ts = self.targets(c)
        return bool(ts) and all(self.nonnull(t) for t in ts)
    def nonnull(self, t):
        nn = self.__dict__.setdefault("_nonnull", {})
        q = t.qname
        if q in nn: return nn[q]
        nn[q] = False
        if t.ret != "ptr" or len(t.order) > 150: return False
        if q in self.noreturn: nn[q] = True; return True
        stop = {b for b in t.order if any(i.op == "call" and (i.extra == "direct" and (i.callee in NORETURN or i.callee in RAISE_FNS) or _nr(self, i)) for i in t.blocks[b].insts)}
        live = set(); todo = [t.order[0]]
        while todo:
            b = todo.pop()
            if b in live or b in stop: continue
            live.add(b); todo += t.blocks[b].succs
        gone = set(t.order) - live
        def good(v, seen, bb):
            if v in seen: return True
            seen = seen | {v}
            d = t.defs.get(v)
            if d is None: return v.startswith("@")
            if d.op in ("bitcast", "freeze"): return good(d.ops[0], seen, bb)
            if d.op == "getelementptr": return good(d.ops[0], seen, bb)
            if d.op == "alloca": return True
            if d.op == "call": return self.call_nonnull(d)
            if d.op == "phi": return all(b in gone or good(x, seen, bb) for x, b in d.extra)
            if d.op == "select": return all(good(x, seen, bb) for x in d.ops[1:])
            if d.op == "load":
                a = t.defs.get(d.ops[0])
                if a is None or a.op != "alloca": return False
                # a local in memory: the store before the load in the same block, or all stores
                st = [i for i in t.insts() if i.op == "store" and i.ops[1] == a.res]
                if any(a.res in i.ops for i in t.insts() if i.op not in ("load", "store")) or any(i.ops[0] == a.res for i in t.insts() if i.op == "store"): return False
                return bool(st) and all(good(i.ops[0], seen, bb) for i in st)
            return False
        rets = [b for b in t.order if t.blocks[b].term is not None and t.blocks[b].term.op == "ret"]
        nn[q] = bool(rets) and all(b in gone or good(t.blocks[b].term.ops[0], frozenset(), b) for b in rets)
        return nn[q]
    def call_may_raise(self, c):
        n = c.callee if c.extra == "direct" else None
        if n in RAISE_FNS: return True
        if n in ALLOC_FNS: return False
        if n is not None:
            t = self.lookup(c.fn.mod, n)
            return t is not None and t.qname in self.may_raise
        s = self.slot(c)
        if s and (s == "FrtStore.close_i" or re.search(r'\.(free|destroy)\w*$', s)): return False   # destructors
        ts = self.targets(c)
        if not ts and s is None and c.ops is not None and self.expr(c.fn, c.callee)[0] == "arg": return True    # the caller's own callback
        return any(t.qname in self.may_raise for t in ts)

    def _leaves_exceptionally(self, f):
        if f.short in ("frt_xpop_context", "frt_xpush_context"): return False
        if f.short in RAISE_FNS: return True
        if not any(self.call_may_raise(c) for c in self.calls[f.qname]): return False
        has_try = any(c.callee == "frt_xpush_context" for c in self.calls[f.qname])
        if not has_try: return True
        res = []
        try: explore(self, f, (), Client(self), on_exit=lambda kind, st, i: res.append(kind))
        except AnalysisBroken:
            if not self.inlined: raise
            return True
        return "raise" in res

# ---------------------------------------------------------------- path-sensitive exploration
class RV:
    """A state reached at the return of a call together with the constant the call returned."""
    __slots__ = ("st", "k")
    def __init__(self, st, k): self.st, self.k = st, k

class Client:
    """State machine run over a function.  States must be hashable."""
    def __init__(self, P): self.P = P
    def step(self, i, st):
        """non-call instruction -> state"""
        return st
    def call(self, i, st):
        """-> (list of normal states, list of exceptional states or None for 'same as st')"""
        return [st], None
    def branch(self, i, cond_expr, taken, st):
        """refine on conditional branch; None = infeasible"""
        return st
    def switch(self, i, case, st):
        return st

def explore(P, f, init, client, on_exit=None, max_states=60000, trace=False):
    """Enumerate (position, exception-context stack, client state) reachable in f.

    Exception contexts: frt_xpush_context pushes [ctx, in_finally=0, pending=0]; a raising call
    jumps to the handler (the non-zero side of the setjmp switch) of the innermost context, sets
    pending; storing in_finally / handled bits is tracked; frt_xpop_context pops and, if pending
    is still set, raises in the next outer context or leaves the function."""
    assert init is not None         # None means "infeasible"
    seen = set()
    work = []
    parents = {}
    KP = _const_phis(f); FL = _flags(f)
    def push(bb, idx, ctx, st, prev, src, kc):
        key = (bb, idx, ctx, st, prev if idx == 0 else None, kc)
        if key in seen: return
        seen.add(key); work.append(key)
        if trace: parents[key] = src
    handlers = _handlers(f)
    push(f.order[0], 0, (), init, None, None, frozenset())
    exits = set()
    n = 0
    def do_raise(i, ctx, st, key, kc):
        if not ctx:
            ex = ("raise", st, i.uid)
            if ex not in exits:
                exits.add(ex)
                if on_exit: on_exit("raise", st, i)
            return
        cid, fin, pend = ctx[-1]
        if hasattr(client, "on_raise"): st = client.on_raise(st)
        h = handlers.get(cid)
        if h is None:
            return
        kept = frozenset(x for x in kc if x[0] in FL) if FL else frozenset()
        for t in h[0]: push(t, 0, ctx[:-1] + ((cid, fin, 1),), st, h[1], key, kept)
    while work:
        key = work.pop()
        bb, idx, ctx, st, prev, kc = key
        n += 1
        if n > max_states:
            raise AnalysisBroken("state explosion in %s (%d states)" % (f.name, n))
        b = f.blocks[bb]
        dead = False
        k = idx
        if idx == 0 and KP: kc = _kc_phis(P, f, b, prev, kc, KP)
        while k < len(b.insts):
            i = b.insts[k]
            op = i.op
            if op == "call":
                c = i.callee if i.extra == "direct" else None
                client.ctx = ctx        # third component of an entry: an error is pending there
                if c == "frt_xpush_context":
                    ctx = ctx + ((i.ops[0], 0, 0),)
                    st = client.step(i, st)
                elif c == "frt_xpop_context":
                    r = client.step(i, st)
                    st = r
                    if ctx:
                        top = ctx[-1]; ctx = ctx[:-1]
                        if top[2] and ctx and ctx[-1][1]:
                            # the outer section is cleaning up: it remembers the error and carries on
                            ctx = ctx[:-1] + ((ctx[-1][0], 1, 1),)
                        elif top[2]:
                            do_raise(i, ctx, st, key, kc); dead = True; break
                elif c in NORETURN:
                    client.call(i, st); dead = True; break
                else:
                    norm, exc = client.call(i, st)
                    if P.call_may_raise(i):
                        in_fin = bool(ctx) and ctx[-1][1]
                        if not in_fin:
                            for e in ([st] if exc is None else exc):
                                do_raise(i, ctx, e, key, kc)
                            if c in RAISE_FNS or _nr(P, i): dead = True; break
                        else:
                            # raising while unwinding: recorded, execution continues
                            ctx = ctx[:-1] + ((ctx[-1][0], ctx[-1][1], 1),) if c in RAISE_FNS else ctx
                    if not norm: dead = True; break
                    if i.res is not None and kc: kc = frozenset(x for x in kc if x[0] != i.res)
                    if len(norm) > 1:
                        for s2 in norm[1:]:
                            if isinstance(s2, RV): push(bb, k + 1, ctx, s2.st, None, key, kc if s2.k is None else kc | {(i.res, s2.k)})
                            else: push(bb, k + 1, ctx, s2, None, key, kc)
                    st = norm[0]
                    if isinstance(st, RV):
                        if st.k is not None: kc = kc | {(i.res, st.k)}
                        st = st.st
            elif op == "store":
                ctx = _ctx_store(P, f, i, ctx)
                if i.ops[1] in FL:
                    kc = frozenset(x for x in kc if x[0] != i.ops[1])
                    c = _kval(P, f, i.ops[0], kc)
                    if c in (0, 1, -1): kc = kc | {(i.ops[1], c)}
                r = client.step(i, st)
                st = r
            elif op == "br":
                if len(i.extra) == 1:
                    push(i.extra[0], 0, ctx, st, bb, key, kc)
                else:
                    known = _kc_eval(f, i.ops[0], kc) if kc else None
                    for t, taken in ((i.extra[0], True), (i.extra[1], False)):
                        if known is not None and bool(known) != taken: continue
                        s2 = client.branch(i, i.ops[0], taken, st)
                        if s2 is not None: push(t, 0, ctx, s2, bb, key, kc)
                dead = True; break
            elif op == "switch":
                d = f.defs.get(i.ops[0])
                if d is not None and d.op == "call" and d.callee in ("_setjmp", "setjmp", "__sigsetjmp"):
                    for v, t in i.extra[1]:
                        if v == 0: push(t, 0, ctx, st, bb, key, kc)
                else:
                    known = _kc_eval(f, i.ops[0], kc) if kc else None
                    s2 = client.switch(i, None, st)
                    if known is not None and known in [v for v, t in i.extra[1]]: s2 = None
                    if s2 is not None: push(i.extra[0], 0, ctx, s2, bb, key, kc)
                    for v, t in i.extra[1]:
                        if known is not None and known != v: continue
                        s2 = client.switch(i, v, st)
                        if s2 is not None: push(t, 0, ctx, s2, bb, key, kc)
                dead = True; break
            elif op == "ret":
                r = client.step(i, st)
                rk = _kc_eval(f, i.ops[0], kc) if i.ops and i.ops[0] else None
                if rk is not None: rk = int(rk)
                outs = [(r, rk)]
                if rk is None and i.ops and i.ops[0] and getattr(client, "split_ret", False):
                    cv = _bool_ret(f, i.ops[0], b, prev if idx == 0 else None)
                    if cv is not None:      # a helper that returns a condition: one exit per outcome
                        cv, neg = cv
                        outs = [(s2, int(t != neg)) for t in (True, False) for s2 in [client.branch(i, cv, t, r)] if s2 is not None]
                for r, rk in outs:
                    ex = ("ret", r, i.uid, ctx, rk)
                    if ex not in exits:
                        exits.add(ex)
                        if on_exit:
                            client.exit_ctx = ctx; client.exit_k = rk
                            on_exit("ret", r, i)
                dead = True; break
            elif op == "unreachable":
                dead = True; break
            else:
                if op == "phi":
                    r = client.phi(i, prev, st) if hasattr(client, "phi") else st
                else:
                    if FL and op == "load" and i.ops[0] in FL:
                        c = [x[1] for x in kc if x[0] == i.ops[0]]
                        kc = frozenset(x for x in kc if x[0] != i.res) | ({(i.res, c[0])} if c else frozenset())
                    r = client.step(i, st)
                st = r
            k += 1
    return exits

def _bool_ret(f, v, b, prev):
    """(condition, negated) if the value returned is that i1 condition"""
    neg = False
    for _ in range(8):
        d = f.defs.get(v)
        if d is None: return None
        if d.op in ("zext", "trunc", "freeze"): v = d.ops[0]
        elif d.op == "phi":
            if prev is None or d.bb is not b: return None
            n = [x for x, p in d.extra if p == prev]
            if not n: return None
            v = n[0]
        elif d.op == "xor" and d.ops[1] in ("true", "1"): v = d.ops[0]; neg = not neg
        elif d.op == "icmp": return v, neg
        else: return None
    return None

_NUM = re.compile(r'^-?\d+$')
def _kconst(v):
    if _NUM.match(v): return int(v)
    if v == "true": return 1
    if v in ("false", "null"): return 0
    return None

def _const_phis(f):
    """phis that carry a constant on some edge and decide a branch"""
    r = getattr(f, "_kphis", None)
    if r is not None: return r
    cand = set()
    def down(v, n=0):
        d = f.defs.get(v)
        if d is None or n > 6: return
        if d.op == "phi":
            if v in cand: return
            cand.add(v)
            for o in d.ops: down(o, n + 1)
        elif d.op in ("trunc", "zext", "sext", "icmp", "xor", "and", "or"):
            for o in d.ops: down(o, n + 1)
    for i in f.insts():
        if (i.op == "br" and len(i.extra) == 2) or i.op == "switch": down(i.ops[0])
        if i.op == "ret" and i.ops and i.ops[0] and f.ret in ("i1", "i8", "i32", "ptr"): down(i.ops[0])
    ok = {v for v in cand if any(_kconst(o) in (0, 1, -1) for o in f.defs[v].ops)}
    ch = True
    while ch:
        ch = False
        for v in cand - ok:
            if any(o in ok for o in f.defs[v].ops): ok.add(v); ch = True
    if len(f.order) > 300: ok = set()       # generated parsers
    f._kphis = ok
    return ok

def _flags(f):
    """volatile locals that decide a branch and are given constants (they survive a raise)"""
    r = getattr(f, "_kflags", None)
    if r is not None: return r
    al = {i.res for i in f.insts() if i.op == "alloca"}
    ptr = {i.res for i in f.insts() if i.op == "alloca" and i.ty == "ptr"}
    const = set()
    for i in f.insts():
        if i.op == "load": continue
        for n, o in enumerate(i.ops):
            if o in al and not (i.op == "store" and n == 1): al.discard(o)
        if i.op == "store":
            if _kconst(i.ops[0]) in (0, 1): const.add(i.ops[1])
            elif i.ops[1] not in ptr: al.discard(i.ops[1])
    al &= const
    used = set()
    def down(v, n=0):
        d = f.defs.get(v)
        if d is None or n > 6: return
        if d.op == "load": used.add(d.ops[0])
        elif d.op in ("trunc", "zext", "sext", "icmp", "xor", "and", "or", "phi"):
            for o in d.ops: down(o, n + 1)
    if al:
        for i in f.insts():
            if (i.op == "br" and len(i.extra) == 2) or i.op == "switch": down(i.ops[0])
    f._kflags = al & used if len(f.order) <= 300 else set()
    return f._kflags

def _kval(P, f, v, kc):
    """0/1/-1 if the value is known to be that here; an object that certainly exists counts as 1"""
    c = _kconst(v)
    if c is None: c = _kc_eval(f, v, kc)
    if c is None:
        d = f.defs.get(v)
        if d is not None and d.ty == "ptr" and d.op == "call" and P.call_nonnull(d): return 1
    return c

def _kc_phis(P, f, b, prev, kc, KP):
    new = None
    for i in b.insts:
        if i.op != "phi": break
        if i.res not in KP: continue
        val = None
        for v, bn in i.extra:
            if bn == prev:
                val = _kval(P, f, v, kc)
        if new is None: new = dict(kc)
        if val not in (0, 1, -1, True, False): val = None
        if val is None: new.pop(i.res, None)
        else: new[i.res] = val
    return kc if new is None else frozenset(new.items())

def _kc_eval(f, v, kc, n=0):
    c = _kconst(v)
    if c is not None: return c
    for a, x in kc:
        if a == v: return x
    d = f.defs.get(v)
    if d is None or n > 6: return None
    if d.op in ("zext", "sext", "trunc"):
        x = _kc_eval(f, d.ops[0], kc, n + 1)
        if x is not None and d.op == "trunc" and d.ty == "i1": x &= 1
        return x
    if d.op == "icmp":
        a, b = _kc_eval(f, d.ops[0], kc, n + 1), _kc_eval(f, d.ops[1], kc, n + 1)
        if a is None or b is None: return None
        return {"eq": a == b, "ne": a != b, "sgt": a > b, "slt": a < b, "sge": a >= b, "sle": a <= b}.get(d.extra)
    if d.op == "xor":
        a, b = _kc_eval(f, d.ops[0], kc, n + 1), _kc_eval(f, d.ops[1], kc, n + 1)
        return None if a is None or b is None else (a ^ b) & 1 if b in (1, -1) and a in (0, 1) else a ^ b
    if d.op == "and":
        a, b = _kc_eval(f, d.ops[0], kc, n + 1), _kc_eval(f, d.ops[1], kc, n + 1)
        if a == 0 or b == 0: return 0
        return None if a is None or b is None else a & b
    return None

def _nr(P, i):
    ts = P.targets(i)
    return bool(ts) and all(t.qname in P.noreturn for t in ts)

def _handlers(f):
    """ctx alloca -> (handler blocks: default and specific cases, setjmp block)"""
    h = getattr(f, "_handlers", None)
    if h is not None: return h
    h = {}
    for bn in f.order:
        b = f.blocks[bn]
        t = b.term
        if t is not None and t.op == "switch":
            d = f.defs.get(t.ops[0])
            if d is not None and d.op == "call" and d.callee in ("_setjmp", "setjmp", "__sigsetjmp"):
                # setjmp(xcontext.jbuf)
                v = d.ops[0]
                while v in f.defs and f.defs[v].op in ("getelementptr", "bitcast"):
                    v = f.defs[v].ops[0]
                h[v] = (tuple(dict.fromkeys([t.extra[0]] + [b for k, b in t.extra[1] if k != 0])), bn)
    f._handlers = h
    return h

def _ctx_store(P, f, i, ctx):
    if not ctx: return ctx
    g = f.defs.get(i.ops[1])
    if g is None or g.op != "getelementptr" or "xcontext_t" not in g.ty: return ctx
    fa = P.field_of_gep(f, g)
    if not fa or "in_finally" not in fa[-1]: return ctx
    d = f.defs.get(i.ops[0])
    if d is None or d.op not in ("or", "and"): return ctx
    out = list(ctx)
    for k, c in enumerate(out):
        if c[0] == g.ops[0]:
            cid, fin, pend = c
            if d.op == "or":
                m = int(d.ops[1]) if re.match(r'^-?\d+$', d.ops[1]) else 0
                if m & 2: fin = 1
                if m & 1: pend = 0
            out[k] = (cid, fin, pend)
    return tuple(out)
