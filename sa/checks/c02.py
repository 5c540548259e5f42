"""C02: a commit only ever refers to files that have been completely written under fresh names."""
from automaton import Events, Engine
from prog import Client, explore
from irbuild import AnalysisBroken
from segs import SegEv, START
import re

def is_new(P, c): return c.extra != "direct" and P.slot(c) == "FrtStore.new_output"
def const_name(P, c): return P.up(c.fn, c.ops[1])[0] == "global"

def closers(P):
    """function -> parameter positions whose stream it closes on every normal return"""
    r = {}
    for q, f in P.funcs.items():
        for c in P.calls[q]:
            if c.extra == "direct" and c.callee == "frt_os_close" and c.ops[0] in f.args:
                r.setdefault(q, set()).add(f.args.index(c.ops[0]))
    r["frt_os_close"] = {0}
    ch = True
    while ch:
        ch = False
        for q, f in P.funcs.items():
            for c in P.calls[q]:
                if c.extra != "direct": continue
                t = P.lookup(f.mod, c.callee)
                for k in r.get(t.qname if t else c.callee, ()):
                    if k < len(c.ops) and c.ops[k] in f.args and f.args.index(c.ops[k]) not in r.get(q, set()):
                        r.setdefault(q, set()).add(f.args.index(c.ops[k])); ch = True
    return r

def token(P, f, v, depth=0):
    """identity of a stream value"""
    e = P.expr(f, v)
    if e[0] == "load":
        a = e[1]
        while a[0] == "index": a = a[1]
        if a[0] == "field": return a[2]
        if a[0] == "alloca": return "%s:%s" % (f.qname, a[1])
    if e[0] == "call":
        # result of new_output: where is it put?
        d = e[1]
        for u in f.users(d.res):
            if u.op == "store" and u.ops[0] == d.res:
                fa = P.field_addr(f, u.ops[1])
                if fa: return fa
                b = P.expr(f, u.ops[1])
                if b[0] == "alloca": return "%s:%s" % (f.qname, b[1])
        if is_new(P, d): return "%s:%s" % (f.qname, d.res)
        return "%s:%s" % (f.qname, d.res)
    if e[0] == "phi":
        for o in e[1].ops:
            d = f.defs.get(o)
            if d is not None and d.op != "phi":
                t = token(P, f, o, depth + 1)
                if t: return t
    if e[0] == "arg" and depth < 5:
        cs = P.callers.get(f.qname, [])
        if len(cs) == 1 and cs[0].extra == "direct": return token(P, cs[0].fn, cs[0].ops[e[1]], depth + 1)
    return None

def returned(f, v):
    return v is not None and any(i.op == "ret" and i.ops and v in (i.ops[0], *phis(f, i.ops[0])) for i in f.insts())

def phis(f, v):
    d = f.defs.get(v)
    return d.ops if d is not None and d.op == "phi" else ()

class StreamEv(Events):
    """state: frozenset of open streams"""
    def __init__(self, P): self.cl = closers(P); self.bad = {}; self.commits = set(); self.opens = set(); self.leak = {}
    def is_event(self, P, c):
        return is_new(P, c) or (c.extra == "direct" and c.callee in ("frt_sis_write", "frt_os_close"))
    def skip(self, P, c, t):
        if t.qname == "frt_sis_write": return True
        return c.extra != "direct" and (P.slot(c) or "").split(".")[0] in ("FrtStore", "FrtLock", "FrtOutStreamMethods", "FrtHash", "FrtHashSet")
    def event(self, P, c, st):
        if is_new(P, c):
            t = token(P, c.fn, c.res) if c.res else None
            if c.res and returned(c.fn, c.res): t = "$ret"
            self.opens.add((c.fn.qname, c.line))
            return [st | {t or "%s:%s" % (c.fn.qname, c.line)}], [st]
        if c.extra == "direct":
            t = P.lookup(c.fn.mod, c.callee)
            ks = self.cl.get(t.qname if t is not None else c.callee)
            if c.callee == "frt_sis_write":
                self.commits.add((c.fn.qname, c.line))
                if st: self.bad.setdefault((c.fn.qname, tuple(sorted(st))), c)
                return [frozenset()], [st]
            if ks:
                s2 = st
                for k in ks:
                    tk = token(P, c.fn, c.ops[k])
                    s2 = s2 - {tk}
                if c.callee == "frt_os_close" or s2 != st: return [s2], [s2]
        return None
    def leave(self, P, c, t, st):
        if "$ret" in st:        # a helper that hands on the stream it opened
            tk = "$ret" if returned(c.fn, c.res) else token(P, c.fn, c.res) if c.res else "%s:%s" % (c.fn.qname, c.line)
            return (st - {"$ret"}) | {tk}
        return st
    def branch(self, P, i, cond, taken, st):
        e = P.expr(i.fn, cond)
        if e[0] == "cmp" and e[1] in ("eq", "ne") and ("const", 0) in e[2:4]:
            a = e[2] if e[3] == ("const", 0) else e[3]
            isnull = (e[1] == "eq") == taken
            if not isnull: return st
            if a[0] == "load" and a[1][0] in ("field", "alloca"):
                tk = a[1][2] if a[1][0] == "field" else "%s:%s" % (i.fn.qname, a[1][1])
                if tk in st: return None
            if a[0] in ("phi", "call"):
                d = i.fn.defs.get(cond)
                v = next((o for o in d.ops if isinstance(o, str) and o in i.fn.defs), None) if d is not None else None
                if v is not None and token(P, i.fn, v) in st: return None
        return st

def run(P, R):
    P.fn("frt_sis_write"); P.fn("frt_os_close")
    R.rule("R1", "when a commit is written, every output stream opened earlier in the same operation has been closed", floor=6)
    R.rule("R2", "a segment is marked as compound only after its compound file has been written and closed", floor=1)
    R.rule("R3", "a deletions or norms file of a committed segment is rewritten only under a generation number advanced for that rewrite", floor=2)
    ev = StreamEv(P); eng = Engine(P, ev)
    roots = [q for q in sorted(eng.rel) if not P.funcs[q].internal and P.funcs[q].mod in P.core_mods and
             any(c.extra == "direct" and c.callee == "frt_sis_write" for g in P.reach([q]) for c in P.calls[g])]
    for q in roots:
        f = P.funcs[q]
        if f.short == "frt_sis_write": continue
        R.analyse(f)
        n = set(ev.bad)
        eng.run(f, frozenset())
        for k in sorted(set(ev.bad) - n):
            c = ev.bad[k]
            R.bad("R1", "%s:%s" % (c.fn.file, c.line), k[0], "writes a commit (reached from %s) while these streams are still open: %s" % (q, ", ".join(k[1])),
                  key="R1|%s|%s" % (k[0], ",".join(k[1])))
        if set(ev.bad) == n: R.ok("R1", "%s:%s" % (f.file, f.line), "%s: no stream open at any commit" % q)
    R.analyse(*sorted(eng.visited))
    rule2(P, R); rule3(P, R)
    R.assumption("Streams are identified by the variable or structure member that holds them; a stream opened in an operation whose creation succeeded is never null.")
    R.assumption("A commit is the call of the routine that writes the segments file; its own streams are checked under C01.")

COMPOUND = "FrtSegmentInfo.use_compound_file"

CONFIG = "FrtConfig.use_compound_file"

class CompEv(Events):
    """state: (has a compound file been closed since the operation began / since the last segment was marked,
    whether the configuration is known to ask for compound files)"""
    virtual = False
    def __init__(self): self.marks = {}
    def is_event(self, P, c): return c.extra == "direct" and c.callee == "frt_cw_close"
    def event(self, P, c, st):
        if self.is_event(P, c): return [(True, st[1])], [st]
        return None
    def step(self, P, i, st):
        if i.op == "store" and P.field_addr(i.fn, i.ops[1]) == COMPOUND:
            k = mark_kind(P, i)
            if k == "config" and st[1] is False: return st
            if k: self.marks.setdefault((i.fn.qname, i.line), set()).add(st[0]); return (False, st[1])
        return st
    def branch(self, P, i, cond, taken, st):
        e = P.expr(i.fn, cond); t = taken
        while e[0] == "cmp" and e[1] in ("eq", "ne") and e[3] == ("const", 0):
            if e[1] == "eq": t = not t
            e = e[2]
        if cfg(e): return (st[0], t)
        return st

def cfg(e):
    while e[0] in ("load", "index"): e = e[1]
    return e[0] == "field" and e[2] == CONFIG

def mark_kind(P, i):
    """what a store to the compound mark stores: None = cleared, or read back from the commit file"""
    e = P.expr(i.fn, i.ops[0])
    if e[0] == "const": return "set" if e[1] != 0 else None
    if calls_in(e): return None
    return "config" if cfg(e) else "set"

def calls_in(e):
    if not isinstance(e, tuple): return False
    return e[0] == "call" or any(calls_in(x) for x in e[1:] if isinstance(x, tuple))

def is_mark(P, f): return any(i.op == "store" and P.field_addr(f, i.ops[1]) == COMPOUND and mark_kind(P, i) for i in f.insts())

def rule2(P, R):
    P.fn("frt_cw_close")
    marks = [q for q, f in P.funcs.items() if is_mark(P, f)]
    ev = CompEv(); ev.extra = tuple(marks)
    eng = Engine(P, ev)
    tops = [f for q, f in sorted(P.funcs.items()) if q in eng.rel and not f.internal and any(m in P.reach([q]) for m in marks)]
    for f in tops: eng.run(f, (False, None))
    R.analyse(*sorted(eng.visited))
    for (q, line), sts in sorted(ev.marks.items()):
        f = P.funcs[q]
        R.check("R2", sts == {True}, "%s:%s" % (f.file, line), q, "marked compound after the compound file was closed",
                "marks the segment as compound on a path on which its compound file has not been written and closed", key="R2|" + q)

def rule3(P, R):
    roots = sorted(P.slots.get("FrtIndexReader.commit_i", ()))
    if len(roots) < 2: raise AnalysisBroken("no reader commit routines found")
    ev = SegEv(P); eng = ev.eng = Engine(P, ev)
    for q in roots:
        if q in eng.rel: eng.run(P.funcs[q], START)
    R.analyse(*sorted(eng.visited))
    for (q, line), rs in sorted(ev.writes.items()):
        f = P.funcs[q]
        bad = any({x[2] for x in g} != {"new"} for g, s in rs)
        R.check("R3", not bad, "%s:%s" % (f.file, line), q, "file written under a generation advanced for it",
                "writes a deletions or norms file whose name was not formed from a generation advanced for this rewrite, so it can overwrite the file "
                "the current commit refers to", key="R3|" + q)
    for (q, line), rs in sorted(ev.queues.items()):
        f = P.funcs[q]
        R.check("R3", not any(x[2] == "new" for g, s in rs for x in g), "%s:%s" % (f.file, line), q, "queues only the superseded file",
                "queues the file of the generation just advanced (the one about to be written) for removal", key="R3|q|" + q)
