"""Interprocedural lock state: which mutexes a function holds when it returns normally.

A state is a frozenset of ('L',path) (taken here, still held), ('U',path) (released here although not
taken here) and ('D',path) (destroyed here).  Paths are access paths; `a0.store.mutex` in a callee is
re-rooted at the actual argument in the caller."""
import re
from prog import Client, explore

LOCK = {"pthread_mutex_lock"}
UNLOCK = {"pthread_mutex_unlock"}
DESTROY = {"pthread_mutex_destroy"}
LOCKOPS = LOCK | UNLOCK | DESTROY

def subst(path, actuals):
    m = re.match(r'a(\d+)(?![0-9])', path)
    if not m: return path
    k = int(m.group(1))
    if k < len(actuals) and actuals[k] is not None: return actuals[k] + path[m.end():]
    return "?" + path[m.end():]

def actuals(P, f, i):
    return [P.loc(f, o) if isinstance(o, str) and not o.startswith("metadata") else None for o in i.ops]

def destroys(P):
    """qname -> paths `aN.field` of mutexes the function (transitively) may destroy."""
    r = {}
    work = [q for q, cs in P.calls.items() if any(c.extra == "direct" and c.callee in DESTROY for c in cs)]
    while work:
        q = work.pop(); f = P.funcs[q]; new = set()
        for c in P.calls[q]:
            if c.extra == "direct" and c.callee in DESTROY: new.add(P.loc(f, c.ops[0])); continue
            for t in P.targets(c):
                if t.qname in r:
                    act = actuals(P, f, c)
                    new |= {subst(x, act) for x in r[t.qname]}
        new = {x for x in new if re.match(r'a\d+\.\w+$', x)}
        if new - r.get(q, set()):
            r[q] = r.get(q, set()) | new
            work += [c.fn.qname for c in P.callers[q]]
    return r

class LockClient(Client):
    def __init__(self, P, f, sums, dest, hook=None):
        Client.__init__(self, P); self.f = f; self.sums = sums; self.dest = dest; self.hook = hook
    def apply(self, st, op, loc):
        if op == "L":
            if ("U", loc) in st: return st - {("U", loc)}
            return st | {("L", loc)}
        if op == "D": return st - {("L", loc)}
        if ("L", loc) in st: return st - {("L", loc)}
        return st | {("U", loc)}
    def call(self, i, st):
        P = self.P
        if self.hook: self.hook(i, st)
        if i.extra == "direct" and i.callee in LOCKOPS:
            op = "L" if i.callee in LOCK else "U" if i.callee in UNLOCK else "D"
            return [self.apply(st, op, P.loc(self.f, i.ops[0]))], None
        effs = set(); known = False; dst = set()
        for t in P.targets(i):
            dst |= self.dest.get(t.qname, set())
            s = self.sums.get(t.qname)
            if s is None: effs.add(frozenset())
            else: known = True; effs |= s
        if not known and not (dst and st): return [st], None
        act = actuals(P, self.f, i)
        for d in dst: st = self.apply(st, "D", subst(d, act))
        out = []
        for e in sorted(effs, key=sorted):
            s2 = st
            for op, loc in sorted(e): s2 = self.apply(s2, op, subst(loc, act))
            if s2 not in out: out.append(s2)
        return out, None

def is_entry(P, f, addr_taken):
    """can be entered from outside this program's direct calls"""
    return (not f.internal) or f.qname in addr_taken

def address_taken(P):
    r = set()
    for s in P.slots.values(): r |= s
    for s in P.argfns.values(): r |= s
    return r

def ret_effects(P):
    """qname -> set of effects on normal return, for functions with a non-neutral effect.
    A function that can be entered from outside must have none (C04 reports it): its callers are not charged again."""
    sums = {}; own = {}
    at = address_taken(P)
    dest = destroys(P)
    work = {q for q, cs in P.calls.items() if any(c.extra == "direct" and c.callee in LOCKOPS for c in cs)}
    analysed = set()
    rounds = {}
    while work:
        q = sorted(work)[0]; work.discard(q)
        f = P.funcs[q]; analysed.add(q)
        rounds[q] = rounds.get(q, 0) + 1
        if rounds[q] > 6: continue
        res = set()
        cl = LockClient(P, f, sums, dest)
        explore(P, f, frozenset(), cl, on_exit=lambda k, st, i: res.add(st) if k == "ret" else None)
        if not res: res = {frozenset()}
        old = sums.get(q)
        new = res if res != {frozenset()} else None
        if new is not None and (is_entry(P, f, at) or not P.callers[q]): own[q] = new; continue
        own.pop(q, None)
        if new != old:
            if new is None: sums.pop(q, None)
            else: sums[q] = new
            for c in P.callers[q]: work.add(c.fn.qname)
    P.lock_own = own
    return sums, dest, analysed

def compound_ops(P):
    """operations that only a compound-file store has"""
    r = set()
    if not P.has("frt_open_cmpd_store"): return r
    mk = P.fn("frt_open_cmpd_store")
    fns = [mk] + [t for c in P.calls[mk.qname] if c.extra == "direct" for t in P.targets(c) if t.mod is mk.mod]
    mine = set(); other = set()
    for q, f in P.funcs.items():
        for i in f.insts():
            if i.op == "store" and i.ty == "ptr" and (P.field_addr(f, i.ops[1]) or "").startswith("FrtStore."):
                for t in P._fnvals(f, i.ops[0]): (mine if f in fns else other).add(t.qname)
    return mine - other

def vtargets(P, c):
    """targets of a call; the store that an index lives in is not itself a compound file"""
    ts = P.targets(c)
    if c.extra == "direct" or not (P.slot(c) or "").startswith("FrtStore."): return ts
    if not hasattr(P, "_cmpd_ops"): P._cmpd_ops = compound_ops(P)
    return [t for t in ts if t.qname not in P._cmpd_ops]

def acquires(P, virtual=True):
    """qname -> {(path, class)}: every mutex the function may lock, itself or through its callees."""
    acq = {}
    work = []
    for q, cs in P.calls.items():
        f = P.funcs[q]
        for c in cs:
            if c.extra == "direct" and c.callee in LOCK:
                acq.setdefault(q, set()).add((P.loc(f, c.ops[0]), mclass(P, f, c.ops[0])))
        if q in acq: work += [c.fn.qname for c in P.callers[q]]
    while work:
        q = work.pop(); f = P.funcs[q]
        new = set()
        for c in P.calls[q]:
            if not virtual and c.extra != "direct": continue
            for t in vtargets(P, c):
                if t.qname in acq:
                    act = actuals(P, f, c)
                    for path, cls in acq[t.qname]:
                        p2 = subst(path, act) if path else None
                        if p2 and (p2.count(".") + p2.count("[]") > 3 or "?" in p2): p2 = None
                        new.add((p2, cls))
        if new - acq.get(q, set()):
            acq[q] = acq.get(q, set()) | new
            work += [c.fn.qname for c in P.callers[q]]
    return acq

def mclass(P, f, v):
    fa = P.field_addr(f, v)
    if fa: return fa
    e = P.expr(f, v)
    return e[1] if e[0] == "global" else "?"
