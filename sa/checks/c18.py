"""C18: no operation waits for a mutex its own thread holds; no opposite lock orders."""
import lockset
from prog import explore

def run(P, R):
    R.rule("R1", "no call made while a mutex is held can lock that same (non-recursive) mutex again, directly or "
                 "through the functions it calls", floor=40)
    R.rule("R2", "the order graph over mutex classes (edge A->B: B of an object reachable from the caller's arguments "
                 "is locked while A is held) has no cycle", floor=5)
    sums, dest, _ = lockset.ret_effects(P)
    acq = lockset.acquires(P, virtual=True)
    recursive = set()       # classes initialised with explicit attributes may be recursive: R1 leaves them out
    for q, cs in P.calls.items():
        for c in cs:
            if c.callee == "pthread_mutex_init" and c.extra == "direct" and c.ops[1] not in ("null", "0"):
                recursive.add(lockset.mclass(P, c.fn, c.ops[0]))
    edges = {}
    for q in sorted(acq):
        f = P.funcs[q]
        cls = {}
        def hook(i, st):
            held = [l for o, l in st if o == "L"]
            if not held: return
            if i.extra == "direct" and i.callee in lockset.LOCK:
                got = {(P.loc(f, i.ops[0]), lockset.mclass(P, f, i.ops[0]))}
            else:
                got = set(); act = None
                for t in lockset.vtargets(P, i):
                    if t.qname in acq:
                        act = act or lockset.actuals(P, f, i)
                        got |= {(lockset.subst(p, act) if p else None, c) for p, c in acq[t.qname]}
            if i.extra == "direct" and i.callee in lockset.LOCKOPS and i.callee not in lockset.LOCK: return
            w = "%s:%s" % (f.file, i.line)
            selfd = sorted(h for h in held for p, c in got if p == h and c not in recursive)
            if selfd:
                R.bad("R1", w, q, "mutex %s is locked again by %s while held" % (selfd[0], P.callee_name(i)),
                      key="R1|%s|%s" % (q, selfd[0]))
            else:
                R.ok("R1", w, "%s: %s called with %s held" % (q, P.callee_name(i), ",".join(sorted(held))))
            for h in held:
                for p, c in got:
                    if p is None or p == h: continue
                    if p[0] not in "ag": continue
                    edges.setdefault((cls.get(h, h), c), []).append((w, q, P.callee_name(i)))
        for c in P.calls[q]:
            if c.extra == "direct" and c.callee in lockset.LOCK:
                cls[P.loc(f, c.ops[0])] = lockset.mclass(P, f, c.ops[0])
            elif c.extra == "direct":
                for t in P.targets(c):
                    for p, k in acq.get(t.qname, ()):
                        if p: cls.setdefault(lockset.subst(p, lockset.actuals(P, f, c)), k)
        if not cls and not any(t.qname in sums for c in P.calls[q] for t in P.targets(c)): continue
        R.analyse(f)
        explore(P, f, frozenset(), lockset.LockClient(P, f, sums, dest, hook))
    graph = {}
    for (a, b) in edges: graph.setdefault(a, set()).add(b)
    def reaches(a, b, seen):
        if a == b: return True
        for x in graph.get(a, ()):
            if x not in seen:
                seen.add(x)
                if reaches(x, b, seen): return True
        return False
    for (a, b), sites in sorted(edges.items()):
        w, q, c = sorted(sites)[0]
        if a != b and reaches(b, a, {b}):
            for w, q, c in sorted(set(sites)):
                R.bad("R2", w, q, "takes %s while holding %s, but elsewhere the order is the opposite" % (b, a),
                      key="R2|%s|%s" % (a, b))
        else:
            R.ok("R2", w, "%s before %s (%d sites, e.g. %s)" % (a, b, len(sites), q))
    R.assumption("Calls through operation pointers are followed to every function installed there; the store an index lives in is not "
                 "itself a compound file, whose mutex guards its one stream.")
    R.assumption("Mutexes are identified by access path; objects not reachable from the caller's arguments are private.")
