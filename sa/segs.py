"""Segments through an operation: which segment and which generation a file name is built from, what has been
listed, written, queued for removal or unmarked, on every path including the exceptional ones.

Values carry attributes: ('s', token) - this segment info, or a name built from its name - and
('g', field, kind) with kind 'old' (the generation the commit refers to), 'new' (advanced) or 'none'.
Buffers (local arrays, or whatever a pointer argument points to) carry the attributes of what was
last formatted into them."""
import collections
from automaton import Events
from prog import RV, RAISE_FNS
import ir as IR

GENS = ("FrtSegmentInfo.del_gen", "FrtSegmentInfo.norm_gens")
NAME = "FrtSegmentInfo.name"
SEGS = "FrtSegmentInfos.segs"
SIZE = "FrtSegmentInfos.size"
COMPOUND_FNS = {"frt_open_cw", "frt_cw_add_file", "frt_cw_close"}

# gens: (field, kind) pairs; ftok: (field, token); listed/spoiled/queued: tokens; env: stack of (value, attrs); bufs: (buffer, attrs)
St = collections.namedtuple("St", "gens ftok written cleared listed emptied queued probs env bufs")
START = St(frozenset(), frozenset(), frozenset(), frozenset(), frozenset(), frozenset(), frozenset(), frozenset(), (frozenset(),), frozenset())
E0 = frozenset()

def is_new(P, c): return c.extra != "direct" and P.slot(c) == "FrtStore.new_output"
def is_queue(P, c): return c.extra == "direct" and c.callee == "frt_hs_add" and P.field_load(c.fn, c.ops[0]) == "FrtDeleter.pending"

def is_discard(P, c):
    """the buffered documents of a document writer are given up"""
    return c.extra == "direct" and (c.callee, P.field_load(c.fn, c.ops[0]) if c.ops else None) in (
        ("frt_h_clear", "FrtDocWriter.fields"), ("frt_mp_reset", "FrtDocWriter.mp"), ("frt_fw_close", "FrtDocWriter.fw"))

def gen_field(P, f, v):
    e = P.expr(f, v)
    while e[0] in ("index", "load"): e = e[1]
    return e[2] if e[0] == "field" and e[2] in GENS else None

def base_field(P, f, v):
    """field an address is in, through array indexing of the pointer it holds"""
    e = P.expr(f, v)
    while e[0] in ("index", "load"): e = e[1]
    return e[2] if e[0] == "field" else None

IO = ("FrtStore", "FrtOutStreamMethods", "FrtInStreamMethods", "FrtLock")
def pure(P, q):
    """raises only about its own arguments: reaches no file operation at all"""
    return not any(c.extra != "direct" and (P.slot(c) or "").split(".")[0] in IO for g in P.reach([q]) for c in P.calls[g])

class SegEv(Events):
    virtual = False
    def __init__(self, P):
        self.P = P
        self.writes = {}; self.queues = {}; self.lists = {}; self.marks = {}; self.bad = {}; self.notes = set()
        self._classify()
        # functions in which an operation on a file can fail
        self.io = {q for q, cs in P.calls.items() if any(c.extra != "direct" and (P.slot(c) or "").split(".")[0] in IO for c in cs)
                   or (any(c.extra == "direct" and c.callee in RAISE_FNS for c in cs) and not pure(P, q))}
        work = list(self.io)
        while work:
            q = work.pop()
            for c in P.callers[q]:
                if c.fn.qname not in self.io: self.io.add(c.fn.qname); work.append(c.fn.qname)
        self.extra = tuple(q for q, f in P.funcs.items() if f.mod in P.core_mods and any(
            (i.op in ("load", "store") and i.ty != "ptr" and gen_field(P, f, i.ops[-1])) or self.store_segs(f, i) or self.store_size(f, i)
            or (i.op == "store" and base_field(P, f, i.ops[1]) in self.sif and P.field_addr(f, i.ops[1])) or self.empties(f, i) for i in f.insts()))
    # ------------------------------------------------------------ what is a segment info
    def _classify(self):
        P = self.P
        self.siarg = set(); self.sif = set(); self.siret = set()
        isseg = collections.defaultdict(set)
        for q, f in P.funcs.items():
            for i in f.insts():
                if i.op == "getelementptr" and any(n.startswith("FrtSegmentInfo.") for n in P.field_of_gep(f, i)[:1]): isseg[q].add(i.ops[0])
        ch = True
        while ch:
            ch = False
            for q, f in P.funcs.items():
                vs = isseg[q]
                for v in list(vs):
                    if v in f.args and (q, f.args.index(v)) not in self.siarg: self.siarg.add((q, f.args.index(v))); ch = True
                    d = f.defs.get(v)
                    if d is not None and d.op == "load":
                        fa = P.field_addr(f, d.ops[0])
                        if fa and fa not in self.sif: self.sif.add(fa); ch = True
                    if d is not None and d.op == "phi":
                        for o in d.ops:
                            if o in f.defs and o not in vs: vs.add(o); ch = True
                for c in P.calls[q]:
                    if c.extra != "direct": continue
                    t = P.lookup(f.mod, c.callee)
                    if t is None: continue
                    for k, o in enumerate(c.ops):
                        if isinstance(o, str) and (t.qname, k) in self.siarg and o not in vs and (o in f.defs or o in f.args): vs.add(o); ch = True
                for i in f.insts():
                    if i.op == "store" and i.ty == "ptr" and i.ops[0] in f.args and i.ops[0] not in vs and P.field_addr(f, i.ops[1]) in self.sif:
                        vs.add(i.ops[0]); ch = True
        self.isseg = isseg
        # functions that return a segment they have listed
        self.lists_ret = {}
        for q, f in P.funcs.items():
            rets = {i.ops[0] for i in f.insts() if i.op == "ret" and i.ops and i.ops[0]}
            for i in f.insts():
                if self.store_segs(f, i) and i.ops[0] in rets and i.ops[0] in f.args: self.lists_ret[q] = f.args.index(i.ops[0])
        ch = True
        while ch:
            ch = False
            for q, f in P.funcs.items():
                if q in self.lists_ret: continue
                rets = {i.ops[0] for i in f.insts() if i.op == "ret" and i.ops and i.ops[0]}
                for c in P.calls[q]:
                    t = P.lookup(f.mod, c.callee) if c.extra == "direct" else None
                    if t is not None and t.qname in self.lists_ret:
                        k = self.lists_ret[t.qname]
                        if c.res in rets or (k is not None and c.ops[k] in rets):
                            v = c.ops[k] if k is not None else None
                            self.lists_ret[q] = f.args.index(v) if v in f.args else None; ch = True
    def store_segs(self, f, i):
        if i.op != "store" or i.ty != "ptr": return False
        e = self.P.expr(f, i.ops[1])
        if e[0] == "index": e = e[1]
        else: return False
        if not (e[0] == "load" and e[1][0] == "field" and e[1][2] == SEGS): return False
        v = self.P.expr(f, i.ops[0])
        while v[0] in ("load", "index"): v = v[1]
        return not (v[0] == "field" and v[2] == SEGS)      # moving an entry within the list
    def store_size(self, f, i):
        if i.op != "store" or self.P.field_addr(f, i.ops[1]) != SIZE: return False
        e = self.P.expr(f, i.ops[1])
        return e[1][0] != "call"        # not the initialisation of a new list
    def empties(self, f, i):
        if i.op != "store" or self.P.field_addr(f, i.ops[1]) != "FrtDocWriter.doc_num" or self.P.expr(f, i.ops[0]) != ("const", 0): return False
        e = self.P.expr(f, i.ops[1])
        return e[0] == "field" and e[1][0] != "call"       # not the initialisation of a new one
    # ------------------------------------------------------------ environment
    def get(self, st, v):
        for k, t in st.env[-1]:
            if k == v: return t
        return E0
    def put(self, st, v, t):
        if v is None: return st
        e = {(k, x) for k, x in st.env[-1] if k != v}
        if t: e.add((v, t))
        e = frozenset(e)
        return st if e == st.env[-1] else st._replace(env=st.env[:-1] + (e,))
    def tok(self, st, f, v):
        """token of a segment-info value"""
        for a in self.get(st, v):
            if a[0] == "s": return a[1]
        e = self.P.expr(f, v)
        if e[0] == "load":
            a = e[1]
            while a[0] == "index" or (a[0] == "load" and a is not e): a = a[1]
            if a[0] == "field":
                for k, t in st.ftok:
                    if k == a[2]: return t
                return "F:" + a[2]
        if e[0] == "call": return "C:%s:%s" % (f.qname, e[1].res)
        if e[0] == "arg": return "A:%s:%d" % (f.qname, e[1])
        if e[0] == "phi": return "P:%s:%s" % (f.qname, e[1].res)
        return None
    def buf(self, st, f, v):
        """identity of the buffer a pointer points into"""
        for a in self.get(st, v):
            if a[0] == "b": return a[1]
        e = self.P.expr(f, v)
        while e[0] in ("index", "field"): e = e[1]
        if e[0] == "alloca": return "%s:%s" % (f.qname, e[1])
        if e[0] == "arg":
            for a in self.get(st, f.args[e[1]]):
                if a[0] == "b": return a[1]
        return None
    def attrs(self, st, f, v):
        """attributes of a value: its own and those of the buffer it points into"""
        r = set(a for a in self.get(st, v) if a[0] in "sg")
        e = self.P.expr(f, v)
        if not r and e[0] == "arg": r |= {a for a in self.get(st, f.args[e[1]]) if a[0] in "sg"}
        b = self.buf(st, f, v)
        if b:
            for k, t in st.bufs:
                if k == b: r |= t
        return frozenset(r)
    def setbuf(self, st, b, t):
        return st._replace(bufs=frozenset({(k, x) for k, x in st.bufs if k != b} | ({(b, t)} if t else set())))
    def gkind(self, st, g):
        for k, x in st.gens:
            if k == g: return x
        return "old"
    def gkey(self, st, f, v):
        """generation field an address denotes; that of a segment made in this operation is kept apart"""
        g = gen_field(self.P, f, v)
        if not g: return None
        b = v
        for _ in range(6):
            d = f.defs.get(b)
            if d is None: break
            if d.op == "getelementptr" and any(n.startswith("FrtSegmentInfo.") for n in self.P.field_of_gep(f, d)):
                t = self.tok(st, f, d.ops[0])
                return g + "*" if t and t.startswith("C:") else g
            b = d.ops[0]
        return g
    def setgen(self, st, g, kind):
        return st._replace(gens=frozenset({(k, x) for k, x in st.gens if k != g} | ({(g, kind)} if kind != "old" else set())))
    # ------------------------------------------------------------ calls
    def is_event(self, P, c): return c.fn.mod in P.core_mods and (is_new(P, c) or is_queue(P, c) or is_discard(P, c))
    def skip(self, P, c, t):
        # operations of the public interface are analysed on their own
        return t.short in COMPOUND_FNS or t.short in ("frt_sis_write", "frt_sis_read") or (not t.internal and t.short.startswith(("frt_iw_", "frt_ir_", "frt_index_")))
    def enter(self, P, c, t, st):
        env = set()
        f = c.fn
        for k, o in enumerate(c.ops):
            if not isinstance(o, str) or k >= len(t.args): continue
            a = set(x for x in self.attrs(st, f, o) if x[0] in "sg")
            b = self.buf(st, f, o)
            if b: a = {x for x in self.get(st, o) if x[0] in "sg"} | {("b", b)}
            if (t.qname, k) in self.siarg or o in self.isseg[f.qname]:
                s = self.tok(st, f, o)
                if s: a.add(("s", s))
            if a: env.add((t.args[k], frozenset(a)))
        passed = {x[1] for v, a in env for x in a if x[0] == "b"}
        return st._replace(env=(frozenset(env),), bufs=frozenset((k, x) for k, x in st.bufs if k in passed))
    def leave(self, P, c, t, st):
        cur = self.cur
        passed = {b for b in (self.buf(cur, c.fn, o) for o in c.ops if isinstance(o, str)) if b}
        bufs = frozenset((k, x) for k, x in cur.bufs if k not in passed) | frozenset((k, x) for k, x in st.bufs if k in passed)
        return st._replace(env=cur.env, bufs=bufs)
    def note(self, d, c, st, *extra): d.setdefault((c.fn.qname, c.line), set()).add((st, ) + extra)
    def event(self, P, c, st):
        f = c.fn
        if c.extra == "direct" and c.callee in COMPOUND_FNS:
            if c.callee == "frt_cw_close": return [st._replace(written=st.written | {"cfs"})], [st]
            if c.callee == "frt_open_cw": st = st._replace(written=st.written - {"cfs"})
            return [st], [st]
        if c.extra == "direct" and c.callee == "frt_sis_write":
            # a successful commit: everything listed is complete
            return [st._replace(listed=E0, emptied=E0, queued=E0, written=E0, cleared=E0, gens=E0, probs=E0)], [st]
        if is_new(P, c):
            a = self.attrs(st, f, c.ops[1])
            g = [x for x in a if x[0] == "g"]; s = [x[1] for x in a if x[0] == "s"]
            self.writes.setdefault((f.qname, c.line), set()).add((frozenset(g), frozenset(s)))
            exc = st
            for t in s:
                if t in st.listed: exc = exc._replace(probs=exc.probs | {("listed", t, c.line, f.qname)})
                if t in st.emptied: exc = exc._replace(probs=exc.probs | {("emptied", t, c.line, f.qname)})
            for x in g:
                for m in st.cleared:
                    if (x[1] == GENS[0]) == (m[1] == "del") and m[1] != "cur": exc = exc._replace(probs=exc.probs | {("cleared", m[0], c.line, f.qname)})
            n = st
            for x in g: n = n._replace(written=n.written | {x[1:]})
            return [n], [exc]
        if is_discard(P, c):
            t = dict(st.ftok).get("FrtDocWriter.si")
            return [st._replace(emptied=st.emptied | {t or "F:FrtDocWriter.si"})], [st]
        if is_queue(P, c):
            a = self.attrs(st, f, c.ops[1])
            g = frozenset(x for x in a if x[0] == "g"); s = frozenset(x[1] for x in a if x[0] == "s")
            self.queues.setdefault((f.qname, c.line), set()).add((g, s))
            q = set()
            whole = "F:" + SEGS in s        # a file of a segment taken from the list: goes with the segment
            for x in g:
                if not whole: q.add(("g",) + x[1:])
            if not g or whole:
                for t in s: q.add(("s", t, "cfs" in st.written))
            return [st._replace(queued=st.queued | q)], None
        if c.extra == "direct":
            t = P.lookup(f.mod, c.callee)
            if t is not None and t.qname in self.lists_ret:
                k = self.lists_ret[t.qname]
                if k is None:
                    tok = "C:%s:%s" % (f.qname, c.res)
                    self.lists.setdefault((f.qname, c.line), set()).add(tok)
                    return [st._replace(listed=st.listed | {tok}, written=st.written - {"removed"})], [st]
                tok = self.tok(st, f, c.ops[k])
                self.lists.setdefault((f.qname, c.line), set()).add(tok)
                st = st._replace(listed=st.listed | {tok}, written=st.written - {"removed"})
                return [self.put(st, c.res, frozenset({("s", tok)}))], [st]
        st2 = st
        # a fresh object
        if c.res:
            tk = "C:%s:%s" % (f.qname, c.res)
            if tk in st.listed or tk in st.emptied:
                st2 = st2._replace(listed=st.listed - {tk}, emptied=st.emptied - {tk})
        # formatting: buffers among the arguments take the attributes of the other arguments
        if c.extra == "direct" and not c.callee.startswith("llvm."):
            ts = P.targets(c)
            if not any(t.qname in self.eng.rel and not self.skip(P, c, t) for t in ts): st2 = self.fmt(c, st2)
        elif c.extra == "direct" and (".memcpy" in c.callee or ".memmove" in c.callee): st2 = self.fmt(c, st2)
        if c.extra == "direct" and not any(t.qname in self.io for t in P.targets(c)) and c.callee not in RAISE_FNS:
            r = self.go(c, st2)
            return r[0], []
        return None if st2 is st else self.go(c, st2)
    def go(self, c, st):
        """continue with a changed state: descend only if relevant"""
        P = self.P
        if c.extra == "direct":
            t = P.lookup(c.fn.mod, c.callee)
            if t is not None and t.qname in self.eng.rel and not self.skip(P, c, t):
                a, b = self.eng._sum(t, self.enter(P, c, t, st))
                self.cur = st
                return [RV(self.leave(P, c, t, x), k) for x, k in sorted(a, key=repr)], [self.leave(P, c, t, x) for x in b]
        return [st], [st]
    def fmt(self, c, st):
        f = c.fn
        al = set(); bs = []
        for o in c.ops:
            if not isinstance(o, str): continue
            b = self.buf(st, f, o)
            if b and b not in bs: bs.append(b)
        for o in c.ops:
            if not isinstance(o, str) or (bs and self.buf(st, f, o) == bs[0]): continue     # what is overwritten
            al |= self.attrs(st, f, o)
        if al:
            for b in bs[:1]:        # the destination comes first in every formatting and copying routine used
                st = self.setbuf(st, b, frozenset(al))
            if c.res: st = self.put(st, c.res, frozenset(al))
        elif bs and c.res:
            st = self.put(st, c.res, frozenset({("b", bs[0])}))
        return st
    # ------------------------------------------------------------ instructions
    def step(self, P, i, st):
        f = i.fn
        op = i.op
        if op == "load":
            if i.ty != "ptr":
                g = self.gkey(st, f, i.ops[0])
                if g: return self.put(st, i.res, frozenset({("g", g, self.gkind(st, g))}))
                return self.put(st, i.res, E0)
            fa = P.field_addr(f, i.ops[0])
            if fa == NAME:
                e = P.expr(f, i.ops[0])
                d = f.defs.get(i.ops[0])
                base = d.ops[0] if d is not None and d.op == "getelementptr" else i.ops[0]
                t = self.tok(st, f, base)
                if t: return self.put(st, i.res, frozenset({("s", t)}))
            if fa in self.sif:
                for k, t in st.ftok:
                    if k == fa: return self.put(st, i.res, frozenset({("s", t)}))
            return self.put(st, i.res, E0)
        if op in ("sext", "zext", "trunc", "bitcast", "freeze"):
            return self.put(st, i.res, self.get(st, i.ops[0]))
        if op in ("add", "sub"):
            a = self.get(st, i.ops[0]) or self.get(st, i.ops[1])
            k = [P.expr(f, o) for o in i.ops]
            r = set()
            for x in a:
                if x[0] != "g": continue
                c = next((y[1] for y in k if y[0] == "const"), None)
                if c is not None and op == "sub": c = -c
                r.add(("g", x[1], "new" if c is not None and c > 0 else "none"))
            return self.put(st, i.res, frozenset(r))
        if op == "select":
            return self.put(st, i.res, self.get(st, i.ops[1]) | self.get(st, i.ops[2]))
        if op == "store":
            g = self.gkey(st, f, i.ops[1])
            if g and i.ty != "ptr":
                a = [x for x in self.get(st, i.ops[0]) if x[0] == "g"]
                kind = a[0][2] if a else "none"
                if kind == "old": return st
                return self.setgen(st, g, kind)
            if self.store_segs(f, i):
                t = self.tok(st, f, i.ops[0])
                self.lists.setdefault((f.qname, i.line), set()).add(t)
                return st._replace(listed=st.listed | {t}, written=st.written - {"removed"})
            if self.store_size(f, i):
                e = P.expr(f, i.ops[0])
                if e[0] == "bin" and e[1] == "add" and e[3][0] == "const" and e[3][1] > 0: return st
                return st._replace(listed=E0, written=st.written if st.listed else st.written | {"removed"}, probs=frozenset(p for p in st.probs if p[0] != "listed"),
                                   queued=frozenset(q for q in st.queued if q[0] != "s"))
            if self.empties(f, i):
                t = None
                for k, x in st.ftok:
                    if k == "FrtDocWriter.si": t = x
                return st._replace(emptied=st.emptied | {t or "F:FrtDocWriter.si"})
            w = P.bit_write(f, i)
            fa = w[0] if w else P.field_addr(f, i.ops[1])
            val = w[1] if w else P.expr(f, i.ops[0])
            if fa in MARKS and val[0] == "const":
                m = (fa, MARKS[fa])
                self.marks.setdefault((f.qname, i.line), fa)
                return st._replace(cleared=st.cleared | {m} if val[1] == 0 else st.cleared - {m})
            fa = P.field_addr(f, i.ops[1])
            if fa in self.sif and i.ty == "ptr":
                t = self.tok(st, f, i.ops[0])
                if t and not t.startswith("C:"): t = None       # only segments made in this operation are followed through members
                return st._replace(ftok=frozenset({(k, x) for k, x in st.ftok if k != fa} | ({(fa, t)} if t else set())))
            return st
        return st
    def branch(self, P, i, cond, taken, st):
        """an advanced generation is not negative, and its entry exists"""
        f = i.fn
        if not any(x == "new" for k, x in st.gens): return st
        d = f.defs.get(cond)
        if d is None or d.op != "icmp": return st
        for n, (a, b) in enumerate(((d.ops[0], d.ops[1]), (d.ops[1], d.ops[0]))):
            p = d.extra if n == 0 else {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(d.extra, d.extra)
            k = P.expr(f, b)
            at = self.get(st, a)
            if any(x[0] == "g" and x[2] == "new" for x in at) and k[0] == "const":
                neg = (p == "slt" and k[1] <= 0) or (p == "sle" and k[1] < 0) or (p == "eq" and k[1] < 0)
                nonneg = (p == "sge" and k[1] <= 0) or (p == "sgt" and k[1] < 0) or (p == "ne" and k[1] < 0)
                if (neg and taken) or (nonneg and not taken): return None
            e = P.expr(f, a)
            if e[0] == "load" and e[1][0] == "field" and e[1][2] == "FrtSegmentInfo.norm_gens_size" and "new" in (self.gkind(st, GENS[1]), self.gkind(st, GENS[1] + "*")):
                if (p in ("sle", "slt") and taken) or (p in ("sgt", "sge") and not taken): return None
        return st
    def phi(self, P, i, prev, st):
        f = i.fn
        if f.order.index(prev) >= f.order.index(i.bb.name) if prev in f.order else False:
            # next turn of a loop: another field's norms, another segment
            N = (GENS[1], GENS[1] + "*")
            if any(k in N for k, x in st.gens) or any(w[0] in N for w in st.written if w not in ("cfs", "removed")):
                st = self.setgen(self.setgen(st, N[0], "old"), N[1], "old")
                st = st._replace(written=frozenset(w for w in st.written if w in ("cfs", "removed") or w[0] not in N))
            st = st._replace(cleared=frozenset(m for m in st.cleared if m[0] != "Norm.is_dirty"))
        for o, b in i.extra:
            if b == prev: return self.put(st, i.res, self.get(st, o))
        return self.put(st, i.res, E0)

MARKS = {"SegmentReader.deleted_docs_dirty": "del", "SegmentReader.norms_dirty": "norm", "Norm.is_dirty": "norm",
         "FrtIndexReader.has_changes": "cur"}
