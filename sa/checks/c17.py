"""C17: the Index facade: one of reader / writer at a time, current before use, never used after close, changes flushed."""
import collections
from automaton import Events, Engine
from prog import RV
from irbuild import AnalysisBroken
INLINE = True

FLD = {"FrtIndex.iw": 0, "FrtIndex.ir": 1, "FrtIndex.sea": 2}
KIND = ("writer", "reader", "searcher")
OPEN = {"frt_iw_open": "iw", "frt_ir_open": "ir", "frt_isea_new": "sea"}
CLOSE = {"frt_iw_close", "frt_ir_close", "frt_searcher_close"}
CHANGE = {"frt_iw_add_doc", "frt_iw_delete_term", "frt_iw_delete_terms", "frt_iw_optimize", "frt_iw_add_readers", "frt_ir_delete_doc",
          "frt_ir_undelete_all", "frt_ir_set_norm"}
ENUMS = {"frt_ir_term_docs_for", "frt_ir_term_positions_for", "frt_ir_terms", "frt_ir_terms_from"}
ENUMSLOT = {"FrtIndexReader.term_docs", "FrtIndexReader.term_positions", "FrtIndexReader.terms", "FrtIndexReader.terms_from"}
NAMES = set(OPEN) | CLOSE | CHANGE | ENUMS | {"frt_ir_commit", "frt_ir_is_latest", "free"}

St = collections.namedtuple("St", "f dead fresh dirty af cl gone env")
NULL = ("null",)

def owner(t): return t[2] if t[0] == "sea" else None

class Ev(Events):
    virtual = False
    rets = True
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.idx = {q for q, f in P.funcs.items() if touches(P, f)}
        while True:
            more = {q for q, f in P.funcs.items() if q not in self.idx and f.args and any(
                c.extra == "direct" and c.ops and c.ops[0] == f.args[0] and P.lookup(f.mod, c.callee) is not None
                and P.lookup(f.mod, c.callee).qname in self.idx for c in P.calls[q])}
            if not more: break
            self.idx |= more
        self.extra = tuple(sorted(self.idx))
        self.bad = {}; self.good = collections.Counter(); self.where = {}
    def is_event(self, P, c): return c.extra == "direct" and c.callee in NAMES and c.fn.qname in self.idx
    def skip(self, P, c, t): return t.qname not in self.idx
    def enter(self, P, c, t, st): return st._replace(env=st.env + (frozenset(),))
    def leave(self, P, c, t, st): return st._replace(env=st.env[:-1])
    def get(self, st, v):
        if v == "null": return NULL
        for k, t in st.env[-1]:
            if k == v: return t
        return None
    def put(self, st, v, t):
        e = {(k, x) for k, x in st.env[-1] if k != v}
        if t is not None: e.add((v, t))
        return st._replace(env=st.env[:-1] + (frozenset(e),))
    def flag(self, rule, i, what):
        self.bad.setdefault((rule, i.fn.qname, what), i)
    def seen(self, rule, i): self.where[(rule, i.fn.qname, i.line)] = i
    def use(self, i, st, t, latest=True):
        """the object named by t is used at i"""
        if t is None or t[0] == "?": return
        if t[0] == "enum":
            self.seen("R5", i)
            if t[1] in st.dead: self.flag("R5", i, "uses an enumerator of a reader that this operation has closed")
            return
        self.seen("R1", i)
        if t == NULL: self.flag("R1", i, "uses a %s that is not open" % "reader, writer or searcher"); return
        if t in st.dead: self.flag("R1", i, "uses a %s after closing it" % KIND[("iw", "ir", "sea").index(t[0])]); return
        if latest and t[0] in ("ir", "sea"):
            self.seen("R2", i)
            r = owner(t) or t
            if r not in st.fresh and st.cl is not False:
                self.flag("R2", i, "reads through a reader without having checked in this operation that it is of the latest version")
    def step(self, P, i, st):
        if i.op == "load":
            t = self.get(st, i.ops[0])
            if t is not None: self.use(i, st, t)
            fa = P.field_addr(i.fn, i.ops[0])
            if fa in FLD: return self.put(st, i.res, st.f[FLD[fa]] or NULL)
            return st
        if i.op == "store":
            fa = P.field_addr(i.fn, i.ops[1])
            if fa in FLD:
                t = self.get(st, i.ops[0])
                if t is None: t = ("?", i.uid)
                f = list(st.f); f[FLD[fa]] = None if t == NULL else t
                return st._replace(f=tuple(f))
            return st
        if i.op == "getelementptr":
            t = self.get(st, i.ops[0])
            if t is not None and t != NULL:
                if not handle_only(P, i): self.use(i, st, t)
            elif t == NULL: self.use(i, st, t)
            return st
        if i.op in ("bitcast", "freeze"):
            t = self.get(st, i.ops[0])
            return self.put(st, i.res, t) if t is not None else st
        return st
    def phi(self, P, i, prev, st):
        for o, b in i.extra:
            if b == prev: return self.put(st, i.res, self.get(st, o))
        return self.put(st, i.res, None)
    def branch(self, P, i, cond, taken, st):
        f = i.fn
        e = P.expr(f, cond)
        d = f.defs.get(cond)
        if d is not None and d.op == "icmp" and d.extra in ("eq", "ne"):
            for a, b in ((d.ops[0], d.ops[1]), (d.ops[1], d.ops[0])):
                if b == "null":
                    t = self.get(st, a)
                    if t is not None and t[0] != "?":
                        if (t == NULL) != ((d.extra == "eq") == taken): return None
                        return st
        neg = False
        while e[0] == "cmp" and e[1] in ("eq", "ne") and e[3] == ("const", 0):
            if e[1] == "eq": neg = not neg
            e = e[2]
        fl = P.flag_read(e)
        val = taken != neg
        if fl == "FrtIndex.auto_flush":
            if st.af is not None and st.af != val: return None
            return st._replace(af=val)
        if fl == "FrtIndex.check_latest":
            if st.cl is not None and st.cl != val: return None
            return st._replace(cl=val)
        return st
    def kill(self, st, ts): return st._replace(dead=st.dead | frozenset(ts), fresh=st.fresh - frozenset(ts))
    def event(self, P, c, st):
        n = c.callee if c.extra == "direct" else None
        toks = [(o, self.get(st, o)) for o in c.ops if isinstance(o, str) and o != "null"]
        if n in CLOSE or (n is None and P.slot(c) in ("FrtSearcher.close",)):
            t = self.get(st, c.ops[0])
            if t is None or t[0] == "?": return [st], [st]
            self.use(c, st, t, latest=False)
            if t == NULL: return [], []
            ks = {t}
            if owner(t): ks.add(owner(t))
            for x in st.f:
                if x is not None and owner(x) in ks: ks.add(x)
            return [self.kill(st, ks)._replace(dirty=False)], [st]
        if n in OPEN:
            k = OPEN[n]
            other = {"iw": 1, "ir": 0}.get(k)
            if other is not None:
                self.seen("R3", c)
                o = st.f[other]
                if o is not None and o not in st.dead:
                    self.flag("R3", c, "opens a %s while the %s is still open" % (("writer", "reader") if k == "iw" else ("reader", "writer")))
            if k == "sea":
                t0 = self.get(st, c.ops[0])
                self.use(c, st, t0)
                t = ("sea", c.uid, t0)
            else: t = (k, c.uid)
            s2 = st._replace(dead=st.dead - {t}, fresh=st.fresh | {t} if k == "ir" else st.fresh)
            return [self.put(s2, c.res, t)], [st]
        if n == "frt_ir_is_latest":
            t = self.get(st, c.ops[0])
            self.use(c, st, t, latest=False)
            if t is None: return None
            return [RV(st._replace(fresh=st.fresh | {t}), 1), RV(st, 0)], [st]
        if n == "frt_ir_commit":
            t = self.get(st, c.ops[0])
            self.use(c, st, t, latest=False)
            return [st._replace(dirty=False)], [st]
        if n in ENUMS or (n is None and P.slot(c) in ENUMSLOT):
            t = self.get(st, c.ops[0])
            self.use(c, st, t)
            return [self.put(st, c.res, ("enum", t) if t is not None else None)], [st]
        if n == "free":
            if c.ops[0] in c.fn.args: return [st._replace(gone=True)], None
            return [st], None
        if n in CHANGE or self.callback_changes(P, c):
            for o, t in toks: self.use(c, st, t)
            self.seen("R4", c)
            return [st._replace(dirty=True)], [st]
        for o, t in toks:
            if t is not None and t != NULL: self.use(c, st, t)
            elif t == NULL and o != "null": self.use(c, st, t)
        return None
    def callback_changes(self, P, c):
        for o in c.ops:
            if isinstance(o, str) and o.startswith("@"):
                g = P.lookup(c.fn.mod, o[1:])
                if g is not None and (P.reach([g.qname]) & CHANGE): return True
        return False

def handle_only(P, g):
    """address computation on an enumerator's or reader's own operation table is checked at the load or call"""
    return all(u.op == "load" for u in g.fn.users(g.res))

def touches(P, f):
    return any(i.op == "getelementptr" and any(n.startswith("FrtIndex.") for n in P.field_of_gep(f, i)) for i in f.insts())

def run(P, R):
    R.rule("R1", "a reader, writer or searcher is used by an Index operation only while it is open, whatever was open when the operation began", floor=5)
    R.rule("R2", "a read goes through a reader that this operation opened or found to be of the latest version (unless checking is switched off)", floor=5)
    R.rule("R3", "the writer is opened only with the reader closed and the reader only with the writer closed, and when an operation ends "
                 "nothing closed is left in the handle and not both are open", floor=8)
    R.rule("R4", "with automatic flushing on, every operation that changed something has committed it by the time it returns", floor=5)
    R.rule("R5", "an enumerator is not used after its reader was closed or replaced", floor=1)
    ev = Ev(P, R)
    eng = Engine(P, ev)
    roots = [P.funcs[q] for q in sorted(ev.idx) if not P.funcs[q].internal and P.funcs[q].mod in P.core_mods
             and any(i.op == "load" and P.field_addr(g, i.ops[0]) in FLD for x in P.reach([q]) & ev.idx for g in [P.funcs[x]] for i in g.insts())]
    if not roots: raise AnalysisBroken("no operation of the Index facade found")
    iw, ir = ("iw", 0), ("ir", 0)
    sea = ("sea", 0, ir)
    starts = [(None, None, None), (iw, None, None), (None, ir, None), (None, ir, sea)]
    def st0(f, af, cl): return St(f, frozenset(), frozenset(), False, af, cl, False, (frozenset(),))
    for f in roots:
        R.analyse(f)
        opens = any(c.extra == "direct" and c.callee in OPEN for q in P.reach([f.qname]) & ev.idx for c in P.calls[q])
        entry = any(c.extra == "direct" and c.callee == "pthread_mutex_lock" for c in P.calls[f.qname])
        before = set(ev.bad)
        ends = []
        for s in starts:
            if not opens and not entry:
                # a step of an operation, which opens nothing: what it uses must be open when it is called
                used = {FLD[P.field_addr(g, i.ops[0])] for q in P.reach([f.qname]) & ev.idx for g in [P.funcs[q]] for i in g.insts()
                        if i.op == "load" and P.field_addr(g, i.ops[0]) in FLD}
                if len(used) == 1 and any(s[u] is None for u in used): continue
            for af in (True, False):
                n, e = eng.run(f, st0(s, af, None))
                ends += [(x, True, s) for x in n] + [(x, False, s) for x in e]
        w = "%s:%s" % (f.file, f.line)
        probs = set(); dirty = False
        for x, normal, s in ends:
            if x.gone: continue
            for k, t in enumerate(x.f):
                if t is not None and t in x.dead: probs.add("leaves a closed %s in the handle" % KIND[k])
            if x.f[0] is not None and x.f[1] is not None: probs.add("ends with both the reader and the writer open")
            if x.f[2] is not None and x.f[2][0] != "?" and owner(x.f[2]) != x.f[1]: probs.add("ends with a searcher over another reader than the handle's")
            if normal and x.dirty and x.af: dirty = True
        R.check("R3", not probs, w, f.qname, "%d final states, all consistent" % len(ends), "; ".join(sorted(probs)), key="R3|%s|end" % f.qname)
        R.check("R4", not dirty, w, f.qname, "changes are committed before it returns under automatic flushing",
                "a change may be left uncommitted although automatic flushing is on", key="R4|%s" % f.qname)
        for k in sorted(set(ev.bad) - before):
            i = ev.bad[k]
            R.bad(k[0], "%s:%s" % (i.fn.file, i.line), k[1], "%s (reached from %s)" % (k[2], f.qname), key="%s|%s|%s" % (k[0], k[1], k[2]))
    badl = {(k[0], i.fn.qname, i.line) for k, i in ev.bad.items()}
    for k, i in sorted(ev.where.items(), key=lambda x: (x[0][0], x[0][1], x[0][2] or 0)):
        if k not in badl: R.ok(k[0], "%s:%s" % (i.fn.file, i.line), k[1])
    R.analyse(*sorted(eng.visited))
    R.assumption("A close or commit that raises leaves its object open (the handle then still refers to it).")
    R.assumption("The Index object is used by one call at a time (its mutex, see C04).")
