"""C04: every mutex a library call takes is released when the call returns."""
import lockset
from prog import explore
RUBY = True

def run(P, R):
    R.rule("R1", "on every path of an externally callable function (exported, or called through a vtable slot or "
                 "callback) to a normal return, each mutex locked on the path has been unlocked or destroyed and no "
                 "mutex was unlocked that the path had not locked", floor=20)
    R.rule("R3", "on every path of such a function that is left by an exception (raised by any call on it that can raise, other than "
                 "destructors), no mutex the path locked is still locked", floor=20)
    R.rule("R2", "every lock operation site lies in a function whose paths R1 covers", floor=40)
    sums, dest, analysed = lockset.ret_effects(P)
    at = lockset.address_taken(P)
    for q in sorted(analysed):
        f = P.funcs[q]; R.analyse(f)
        for c in P.calls[q]:
            if c.extra == "direct" and c.callee in lockset.LOCK | lockset.UNLOCK:
                R.ok("R2", "%s:%s" % (f.file, c.line), "%s: %s(%s)" % (q, c.callee, P.loc(f, c.ops[0])))
        called = bool(P.callers[q])
        entry = lockset.is_entry(P, f, at) or not called
        effs = P.lock_own.get(q) or sums.get(q, {frozenset()})
        for e in sorted(effs, key=sorted):
            if not e:
                if entry: R.ok("R1", "%s:%s" % (f.file, f.line), "%s returns with no net lock effect" % q)
                continue
            if not entry: continue      # a lock helper: its effect is charged to its callers
            for op, path in sorted(e):
                R.bad("R1", "%s:%s" % (f.file, f.line), q,
                      ("can return with mutex %s still locked" if op == "L" else
                       "can unlock mutex %s it does not hold") % path, key="R1|%s|%s|%s" % (q, op, path))
    for q in sorted(analysed):
        f = P.funcs[q]
        res = {}
        cl = lockset.LockClient(P, f, sums, dest)
        def done(k, st, i):
            if k == "raise": res.setdefault(frozenset(x for x in st if x[0] == "L"), []).append(i)
        explore(P, f, frozenset(), cl, on_exit=done)
        if not res: continue
        ops = any(c.callee in lockset.LOCK for c in P.calls[q])
        bad = [s for s in res if s]
        if not bad: R.ok("R3", "%s:%s" % (f.file, f.line), "%s: exceptional exits leave no mutex locked" % q)
        for s in bad:
            if not ops and not any(t.qname in sums for c in P.calls[q] for t in P.targets(c)): continue
            i = res[s][0]
            for op, path in sorted(s):
                R.bad("R3", "%s:%s" % (f.file, i.line), q, "an exception raised by %s leaves mutex %s locked" % (P.callee_name(i), path),
                      key="R3|%s|%s" % (q, path))
    R.assumption("Mutexes are identified by access path; two different paths are taken to be different mutexes.")
    R.assumption("Destructors (functions called through free/destroy slots, and a store's close) are taken not to raise.")
    R.assumption("Failure of memory allocation is not modelled.")
