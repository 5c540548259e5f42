"""C03: one writer at a time: the write lock is exclusive, held for as long as it is needed, and never disturbed."""
from automaton import Events, Engine
from prog import Client, explore, RV
from irbuild import AnalysisBroken
import re

EXCL = 0o300      # O_CREAT | O_EXCL on Linux: 0100 | 0200

def slot_is(P, c, s): return c.extra != "direct" and P.slot(c) == s

def is_write(P, c):
    return (c.extra == "direct" and c.callee == "frt_sis_write") or \
        (c.extra != "direct" and P.slot(c) in ("FrtStore.new_output", "FrtStore.remove", "FrtStore.rename", "FrtStore.touch"))

def run(P, R):
    R.rule("R1", "a lock's obtain operation answers true only on paths that have just created the lock file exclusively (or have seen it absent and then created it)", floor=2)
    R.rule("R2", "after a failed obtain nothing of the index is written or removed, the lock is not released, and the owner does not keep it as if it held it; "
                 "after a successful obtain, an exception leaves the function only once the lock has been released", floor=3)
    R.rule("R3", "a reader accepts a change (delete, undelete, norm) only after acquiring the write lock", floor=1)
    R.rule("R4", "a reader that owns its commits always takes the real lock, checks after taking it that its snapshot is the newest, and "
                 "only an owning reader writes a commit", floor=3)
    R.rule("R5", "no file of the index is written or removed after the write lock has been released, within one operation", floor=2)
    R.rule("R6", "a lock file is removed only by the release of a lock, or by the function that has just created it exclusively", floor=2)
    R.rule("R7", "whoever takes the write lock of an index takes it under one and the same name", floor=1)
    R.rule("R8", "when a reader gives the write lock back after committing, no change of its is left pending (a later change takes the lock again)", floor=1)
    R.rule("R9", "the reader handed out for an index owns its commits; the readers of its segments, which it commits for, do not", floor=1)
    rule7(P, R); rule8(P, R); rule9(P, R)
    rule1(P, R); rule2(P, R); rule3(P, R); rule4(P, R); rule5(P, R); rule6(P, R)
    R.assumption("Callers release a lock only after their own obtain succeeded (checked for the library by R2), and do not share a Lock handle.")
    R.assumption("The operating system's exclusive create is atomic; a RAM store is used by one thread at a time.")

def const_flags(P, c):
    e = P.expr(c.fn, c.ops[1]) if len(c.ops) > 1 else ("?",)
    return e[1] if e[0] == "const" else None

def excl_open(P, c):
    return c.extra == "direct" and c.callee in ("open", "open64") and const_flags(P, c) is not None and (const_flags(P, c) & EXCL) == EXCL

class ObtainEv(Events):
    virtual = True; rets = True
    def __init__(self, P):
        self.exists = P.slots["FrtStore.exists"]; self.touch = P.slots["FrtStore.touch"]; self.exits = []
    def is_event(self, P, c): return excl_open(P, c) or self.kind(P, c) is not None
    def kind(self, P, c):
        if c.extra == "direct":
            t = P.lookup(c.fn.mod, c.callee)
            if t is not None and t.qname in self.exists: return "exists"
            if t is not None and t.qname in self.touch: return "touch"
            if c.callee == "frt_h_get": return "exists"
            if c.callee in ("frt_h_set", "frt_h_set_safe"): return "touch"
        elif P.slot(c) == "FrtStore.exists": return "exists"
        elif P.slot(c) == "FrtStore.touch": return "touch"
        return None
    def event(self, P, c, st):
        k = self.kind(P, c)
        if k == "touch": return [("created" if st == "absent" else "overwritten" if st == "none" else st)], None
        if k == "exists": return [RV("absent", 0), RV("present", 1)], None
        if c.extra == "direct" and c.callee in ("open", "open64"): return ["none"], None
        return None
    def branch(self, P, i, cond, taken, st):
        e = P.expr(i.fn, cond)
        if e[0] == "cmp" and e[2][0] == "call" and excl_open(P, e[2][1]) and e[3][0] == "const":
            k = e[3][1]
            nonneg = (e[1] == "slt" and k == 0 and not taken) or (e[1] == "sgt" and k == -1 and taken) or (e[1] == "sge" and k == 0 and taken) or \
                     (e[1] == "eq" and k == -1 and not taken) or (e[1] == "ne" and k == -1 and taken) or (e[1] == "sle" and k == -1 and not taken)
            return "created" if nonneg else "none"
        return st

def rule1(P, R):
    tg = sorted(P.slots.get("FrtLock.obtain", ()))
    if not tg: raise AnalysisBroken("no obtain operation found")
    for q in tg:
        f = P.funcs[q]; R.analyse(f)
        w = "%s:%s" % (f.file, f.line)
        ev = ObtainEv(P); eng = Engine(P, ev)
        eng.rel.add(q)
        eng.run(f, "none")
        outs = eng.memo.get((q, "none"), (frozenset(), frozenset()))[0]
        bad = [(s, k) for s, k in outs if k != 0 and s != "created" and not derived(P, f)]
        yes = [s for s, k in outs if k != 0]
        R.check("R1", not bad and bool(yes), w, q, "true only in %s" % sorted(set(yes)),
                "can answer true although the lock file was not created exclusively (%s)" % sorted(set(s for s, k in bad)), key="R1|" + q)

def derived(P, f):
    """the answer is itself the comparison of the exclusive open's result with 0"""
    for i in f.insts():
        if i.op == "ret" and i.ops and i.ops[0]:
            e = P.expr(f, i.ops[0])
            if e[0] == "cmp" and e[2][0] == "call" and excl_open(P, e[2][1]) and e[1] in ("sge", "sgt"): return True
            if e[0] == "cmp" and e[1] == "eq" and e[3] == ("const", 0) and e[2][0] == "call" and e[2][1].extra == "direct":
                t = P.lookup(f.mod, e[2][1].callee)
                if t is not None and t.qname in P.slots["FrtStore.exists"]: return True
    return False

LOCKF = re.compile(r'\.write_lock$')

class LockEv(Events):
    """state: (lock, field set, snapshot checked)"""
    virtual = False; rets = True
    def __init__(self): self.bad = []
    def is_event(self, P, c):
        return slot_is(P, c, "FrtLock.obtain") or slot_is(P, c, "FrtLock.release") or is_write(P, c) or \
            (c.extra == "direct" and c.callee == "frt_sis_read_current_version")
    def skip(self, P, c, t): return t.qname == "frt_sis_read_current_version"
    def event(self, P, c, st):
        lk, fld, chk = st
        if slot_is(P, c, "FrtLock.obtain"):
            return [RV(("held", fld, 0), 1), RV(("failed", fld, 0), 0)], [("failed", fld, 0)]
        if c.extra == "direct" and c.callee == "frt_sis_read_current_version":
            return [(lk, fld, 2 if lk == "held" else chk)], [st]
        if slot_is(P, c, "FrtLock.release"):
            if lk == "failed": self.bad.append((c, "releases a lock it failed to obtain"))
            return [("released" if lk == "held" else lk, fld, chk)], None
        if lk == "failed" and is_write(P, c):
            self.bad.append((c, "writes or removes an index file after failing to obtain the lock"))
        if c.extra == "direct" and c.callee == "free" and c.ops: return [(lk, 0, chk)], None
        if c.extra == "direct" and c.callee == "frt_sis_write": return [st], [st]
        return None
    def step(self, P, i, st):
        if i.op == "store" and i.ty == "ptr":
            fa = P.field_addr(i.fn, i.ops[1])
            if fa and LOCKF.search(fa):
                null = i.ops[0] == "null" or (st[0] == "failed" and self.null_if_failed(P, i.fn, i.ops[0]))
                return (st[0], 0 if null else 1, st[2])
        return st
    def null_if_failed(self, P, f, v):
        """the value comes from a helper that answers null exactly when it did not get the lock"""
        d = f.defs.get(v)
        if d is None or d.op != "call" or d.extra != "direct": return False
        t = P.lookup(f.mod, d.callee)
        if t is None: return False
        outs = [(s, k) for (q, _), r in self.eng.memo.items() if q == t.qname for s, k in r[0]]
        return any(s[0] == "failed" for s, k in outs) and all((k == 0) == (s[0] == "failed") for s, k in outs)
    def branch(self, P, i, cond, taken, st):
        e = P.expr(i.fn, cond)
        if e[0] == "cmp" and e[1] in ("eq", "ne"):
            a, b = e[2], e[3]
            if a == ("const", 0): a, b = b, a
            if b == ("const", 0) and a[0] == "load" and a[1][0] == "field" and LOCKF.search(a[1][2]):
                isnull = (e[1] == "eq") == taken
                if st[0] == "entry":
                    # already held on entry, or not yet taken
                    return ("none", 0, st[2]) if isnull else ("kept", 1, st[2])
                if isnull == bool(st[1]): return None
        if e[0] == "cmp" and e[1] in ("ugt", "ult", "ule", "uge", "eq", "ne"):
            a, b, pr = e[2], e[3], e[1]
            if is_ver(P, i.fn, b) and is_curr(P, i.fn, a): a, b, pr = b, a, {"ugt": "ult", "ult": "ugt", "ule": "uge", "uge": "ule"}.get(pr, pr)
            if is_ver(P, i.fn, a) and is_curr(P, i.fn, b):
                # snapshot <pr> current
                ok = (pr == "ult" and not taken) or (pr == "uge" and taken) or (pr == "eq" and taken) or (pr == "ne" and not taken)
                if ok and st[2] == 2: return (st[0], st[1], 1)
        return st

def is_ver(P, f, e): return e[0] == "load" and e[1][0] == "field" and e[1][2] == "FrtSegmentInfos.version"
def is_curr(P, f, e):
    if e[0] == "call": return e[1].extra == "direct" and e[1].callee == "frt_sis_read_current_version"
    if e[0] == "load" and e[1][0] == "alloca":
        return any(u.op == "store" and P.expr(f, u.ops[0])[0] == "call" and P.expr(f, u.ops[0])[1].callee == "frt_sis_read_current_version" for u in f.users(e[1][1]))
    if e[0] == "phi":
        return any(is_curr(P, f, P.expr(f, o)) for o in e[1].ops if o in f.defs and f.defs[o].op != "phi")
    return False

def obtainers(P):
    """smallest non-helper functions around each obtain call: callers of an internal boolean helper take its place"""
    r = {c.fn.qname for cs in P.calls.values() for c in cs if slot_is(P, c, "FrtLock.obtain")}
    out = set(); work = list(r); seen = set()
    while work:
        q = work.pop()
        if q in seen: continue
        seen.add(q)
        f = P.funcs[q]
        cs = P.callers.get(q, [])
        if f.internal and cs and all(c.extra == "direct" for c in cs) and f.ret in ("i1", "i8", "i32", "ptr"): work += [c.fn.qname for c in cs]
        else: out.add(q)
    return sorted(out)

def rule2(P, R):
    roots = obtainers(P)
    for q in roots:
        f = P.funcs[q]; R.analyse(f)
        w = "%s:%s" % (f.file, f.line)
        ev = LockEv(); eng = ev.eng = Engine(P, ev)
        ret, exc = eng.run(f, ("entry", 0, 0))
        keeps = any(LOCKF.search(P.field_addr(P.funcs[g], i.ops[1]) or "") for g in eng.visited for i in P.funcs[g].insts() if i.op == "store" and i.ty == "ptr")
        n = 0
        for c, what in ev.bad:
            n += 1; R.bad("R2", "%s:%s" % (c.fn.file, c.line), q, what, key="R2|%s|%s" % (q, what))
        for s in exc:
            if s[0] == "failed" and s[1]:
                n += 1; R.bad("R2", w, q, "raises after a failed obtain but leaves the lock recorded as held", key="R2|%s|recorded" % q)
            if s[0] == "held":
                n += 1; R.bad("R2", w, q, "an exception can leave the function with the lock still held", key="R2|%s|leak" % q)
        for s in ret:
            if s[0] in ("entry", "none", "released") and keeps:
                n += 1; R.bad("R2", w, q, "can return normally without holding the lock it is there to take", key="R2|%s|without" % q)
            if s[0] == "failed":
                n += 1; R.bad("R2", w, q, "returns normally although the lock could not be obtained", key="R2|%s|ignored" % q)
            if s[0] == "held" and any("FrtIndexReader.write_lock" == P.field_addr(f, i.ops[1]) for i in f.insts() if i.op == "store"):
                R.check("R4", s[2] == 1, w, q, "the lock is kept only when the snapshot is the newest",
                        "keeps the write lock without having checked that the reader's snapshot is the newest", key="R4|stale")
        if not n: R.ok("R2", w, "%s: exits %s / exceptional %s" % (q, sorted(ret), sorted(exc)))

MUT = {"FrtIndexReader.delete_doc_i", "FrtIndexReader.undelete_all_i", "FrtIndexReader.set_norm_i"}
class MutEv(Events):
    virtual = False
    def __init__(self): self.bad = []; self.ok = set()
    def is_event(self, P, c): return c.extra != "direct" and (P.slot(c) in MUT or P.slot(c) == "FrtIndexReader.acquire_write_lock")
    def event(self, P, c, st):
        s = P.slot(c) if c.extra != "direct" else None
        if s == "FrtIndexReader.acquire_write_lock": return ["acquired"], [st]
        if s in MUT:
            (self.ok.add((c.fn.qname, c.line)) if st == "acquired" else self.bad.append(c))
            return [st], [st]
        return None

def rule3(P, R):
    impl = set()
    for s in MUT: impl |= P.slots.get(s, set())
    ev = MutEv(); eng = Engine(P, ev)
    for q in sorted(eng.rel):
        f = P.funcs[q]
        called = [c for c in P.callers.get(q, []) if c.extra == "direct"]
        if f.internal and called: continue
        if f.mod not in P.core_mods: continue
        n = len(ev.bad); k = len(ev.ok)
        eng.run(f, "none"); R.analyse(f)
        for c in ev.bad[n:]:
            if c.fn.qname in impl and P.expr(c.fn, c.ops[0]) == ("arg", 0): continue     # the reader whose lock the caller took
            R.bad("R3", "%s:%s" % (c.fn.file, c.line), c.fn.qname, "%s is reached (from %s) without the write lock having been acquired" % (P.slot(c), q),
                  key="R3|%s|%s" % (c.fn.qname, P.slot(c)))
        if len(ev.ok) > k: pass
    for x in sorted(ev.ok): R.ok("R3", x[0], "change at line %s follows the acquisition of the write lock" % x[1])

def rule4(P, R):
    can = {q for q in P.funcs if any(slot_is(P, c, "FrtLock.obtain") for g in P.reach([q]) for c in P.calls[g])} if False else None
    def reaches_obtain(q):
        return any(slot_is(P, c, "FrtLock.obtain") for g in P.reach([q]) for c in P.calls[g])
    sites = [(q, f, i) for q, f in P.funcs.items() for i in f.insts()
             if i.op == "store" and i.ty == "ptr" and P.field_addr(f, i.ops[1]) == "FrtIndexReader.acquire_write_lock"]
    if not sites: raise AnalysisBroken("acquire_write_lock is never set")
    for q, f, i in sites:
        R.analyse(f)
        w = "%s:%s" % (f.file, i.line)
        d = f.defs.get(i.ops[0])
        if d is not None and d.op in ("select", "phi"):
            # chosen by value: each alternative must agree with the ownership condition
            if d.op == "select":
                c = owner_cond(P, f, d.ops[0])
                tv = fnname(P, f, d.ops[1]); fv = fnname(P, f, d.ops[2])
                ok = c is not None and reaches_obtain(tv if c else fv)
                R.check("R4", ok, w, q, "the locking version is chosen for owning readers", "an owning reader may be given an acquire that does not lock", key="R4|slot")
                continue
            st = {}
            for v, b in d.extra: st[b] = fnname(P, f, v)
            res = []
            class Cl(Client):
                def branch(self, br, cond, taken, s):
                    c = owner_cond(P, f, cond)
                    return s if c is None else ("owner" if taken == c else "not")
                def phi(self, p, prev, s):
                    if p is d: res.append((s, st.get(prev)))
                    return s
            explore(P, f, "?", Cl(P))
            ok = all(s == "not" or reaches_obtain(t) for s, t in res)
            R.check("R4", ok, w, q, "the locking version is chosen for owning readers", "an owning reader may be given an acquire that does not lock", key="R4|slot")
            continue
        t = fnname(P, f, i.ops[0])
        if t is None: continue
        if reaches_obtain(t):
            R.ok("R4", w, "%s: acquire is the locking version" % q); continue
        res = []
        class Cl(Client):
            def branch(self, br, cond, taken, s):
                c = owner_cond(P, f, cond)
                return s if c is None else ("owner" if taken == c else "not")
            def step(self, x, s):
                if x is i: res.append(s)
                return s
        explore(P, f, "?", Cl(P))
        R.check("R4", bool(res) and all(s == "not" for s in res), w, q, "the non-locking version is set only for non-owning readers",
                "an owning reader may be given an acquire that does not lock", key="R4|slot")
    # only an owner commits
    for q, f in sorted(P.funcs.items()):
        cs = [c for c in P.calls[q] if c.extra == "direct" and c.callee == "frt_sis_write"]
        if not cs or not any(i.op == "getelementptr" and "FrtIndexReader." in str(P.field_of_gep(f, i)) for i in f.insts()): continue
        if not any(slot_is(P, c, "FrtIndexReader.commit_i") for c in P.calls[q]): continue
        res = []
        class Cl(Client):
            def branch(self, br, cond, taken, s):
                c = owner_cond(P, f, cond)
                return s if c is None else ("owner" if taken == c else "not")
            def call(self, c, s):
                if c in cs: res.append((s, c))
                return [s], None
        explore(P, f, "?", Cl(P)); R.analyse(f)
        bad = [c for s, c in res if s != "owner" and not only_owner(P, f)]
        R.check("R4", not bad, "%s:%s" % (f.file, cs[0].line), q, "a reader writes a commit only if it owns its commits",
                "a reader that does not own its commits (and so has no write lock) can write one", key="R4|commit")

def only_owner(P, f):
    """every call of the (internal) function is made under the ownership condition"""
    cs = P.callers.get(f.qname, [])
    if not f.internal or not cs: return False
    for c in cs:
        g = c.fn; res = []
        class Cl(Client):
            def branch(self, br, cond, taken, s):
                k = owner_cond(P, g, cond)
                return s if k is None else ("owner" if taken == k else "not")
            def call(self, x, s):
                if x is c: res.append(s)
                return [s], None
        explore(P, g, "?", Cl(P))
        if any(s != "owner" for s in res): return False
    return True

def fnname(P, f, v):
    x = P._fnvals(f, v)
    return x[0].qname if len(x) == 1 else None

def owner_cond(P, f, cond):
    """True: condition true means owner; False: means not owner; None: unrelated"""
    e = P.expr(f, cond); pol = True
    while e[0] == "cmp" and e[1] in ("eq", "ne") and ("const", 0) in e[2:4]:
        if e[1] == "eq": pol = not pol
        e = e[2] if e[3] == ("const", 0) else e[3]
    if P.flag_read(e) == "FrtIndexReader.is_owner": return pol
    if e[0] == "bin" and e[1] == "and": e = e[2]
    if e[0] == "arg":
        # the parameter that is stored as is_owner
        for i in f.insts():
            if i.op == "store":
                bw = P.bit_write(f, i)
                if bw is None and P.field_addr(f, i.ops[1]) == "FrtIndexReader.is_owner": bw = ("FrtIndexReader.is_owner", P.expr(f, i.ops[0]))
                if bw and bw[0] == "FrtIndexReader.is_owner":
                    x = bw[1]
                    while x[0] in ("bin",) or (x[0] == "cmp" and x[3] == ("const", 0)): x = x[2]
                    if x == e: return pol
    return None

class RelEv(Events):
    virtual = False
    def __init__(self): self.bad = []
    def is_event(self, P, c):
        return slot_is(P, c, "FrtLock.release") or slot_is(P, c, "FrtLock.obtain") or is_write(P, c) or slot_is(P, c, "FrtIndexReader.commit_i")
    def event(self, P, c, st):
        if slot_is(P, c, "FrtLock.release"):
            return ["released" if LOCKF.search(lockfield(P, c) or "") else st], None
        if slot_is(P, c, "FrtLock.obtain"): return ["start"], ["start"]
        if is_write(P, c) or slot_is(P, c, "FrtIndexReader.commit_i"):
            if st == "released": self.bad.append(c)
            return [st], [st]
        return None

def lockfield(P, c):
    e = P.up(c.fn, c.ops[0])
    while e[0] in ("load", "index"): e = e[1]
    return e[2] if e[0] == "field" else None

def rule5(P, R):
    rel = {c.fn.qname for cs in P.calls.values() for c in cs if slot_is(P, c, "FrtLock.release") and LOCKF.search(lockfield(P, c) or "")}
    roots = set(rel)
    for q in sorted(rel):
        # a helper that only releases is judged where it is called
        f = P.funcs[q]
        if f.internal and not any(is_write(P, c) or slot_is(P, c, "FrtIndexReader.commit_i") for c in P.calls[q]): roots |= {c.fn.qname for c in P.callers.get(q, []) if c.extra == "direct"}
    for q in sorted(roots):
        f = P.funcs[q]; R.analyse(f)
        ev = RelEv(); eng = Engine(P, ev)
        eng.run(f, "start")
        for c in ev.bad:
            R.bad("R5", "%s:%s" % (c.fn.file, c.line), c.fn.qname, "reached from %s, writes or removes an index file after the write lock was released" % q,
                  key="R5|%s" % c.fn.qname)
        if not ev.bad: R.ok("R5", "%s:%s" % (f.file, f.line), "%s: no index file is touched after the release" % q)

def rule6(P, R):
    rel = P.slots.get("FrtLock.release", set())
    rmfns = P.slots["FrtStore.remove"]
    for q, cs in sorted(P.calls.items()):
        f = P.funcs[q]
        for c in cs:
            if c.extra == "direct":
                t = P.lookup(f.mod, c.callee)
                if not (c.callee in ("remove", "unlink", "frt_h_del") or (t is not None and t.qname in rmfns)): continue
            elif P.slot(c) != "FrtStore.remove": continue
            if not any(isinstance(o, str) and P.field_load(f, o) == "FrtLock.name" for o in c.ops): continue
            w = "%s:%s" % (f.file, c.line); R.analyse(f)
            if q in rel or helper_of(P, f, rel): R.ok("R6", w, "%s: release" % q); continue
            res = []
            ev = ObtainEv(P)
            class Cl(Client):
                def branch(self, i, cond, taken, s): return ev.branch(P, i, cond, taken, s)
                def call(self, i, s):
                    if i is c: res.append(s)
                    return [s], None
            explore(P, f, "none", Cl(P))
            R.check("R6", bool(res) and all(s == "created" for s in res), w, q, "removes a lock file it has just created exclusively",
                    "removes a lock file that may belong to someone else", key="R6|" + q)
    # clearing the files of a directory spares its locks
    for q in sorted(P.slots.get("FrtStore.clear", ())):
        f = P.funcs[q]
        res = []
        class Cl(Client):
            def branch(self, i, cond, taken, s):
                e = P.expr(f, cond); t = taken
                while e[0] == "cmp" and e[1] in ("eq", "ne") and e[3] == ("const", 0):
                    if e[1] == "eq": t = not t
                    e = e[2]
                if e[0] == "call" and e[1].extra == "direct" and e[1].callee in ("frt_file_is_lock", "strncmp", "memcmp"):
                    if e[1].callee != "frt_file_is_lock": t = not t
                    return "lock" if t else "other"
                return s
            def call(self, c, s):
                if removes(P, c): res.append((s, c))
                if c.extra == "direct" and c.callee == "readdir": return ["?"], None
                return [s], None
            def phi(self, i, prev, s): return "?" if i.bb.name in heads and prev in heads[i.bb.name] else s
            def step(self, i, s): return s
        from sym import Sym
        S = Sym(P, f); heads = {h: b for h, b in S.loops().items()}
        explore(P, f, "?", Cl(P)); R.analyse(f)
        if not res: continue
        bad = [c for s, c in res if s != "other"]
        R.check("R6", not bad, "%s:%s" % (f.file, f.line), q, "clears only files that are no locks", "clearing the directory can remove a lock file, whoever holds it",
                key="R6|%s|clear" % q)
    clr = P.slots.get("FrtStore.clear_locks", set())
    for q, cs in sorted(P.calls.items()):
        for c in cs:
            t = P.lookup(c.fn.mod, c.callee) if c.extra == "direct" else None
            if (t is not None and t.qname in clr) or P.slot(c) == "FrtStore.clear_locks":
                if c.fn.mod in P.ruby_mods or q in clr: continue
                R.bad("R6", "%s:%s" % (c.fn.file, c.line), q, "removes all lock files of the directory, whoever holds them", key="R6|%s|clear_locks" % q)

def helper_of(P, f, rel):
    cs = P.callers.get(f.qname, [])
    return f.internal and bool(cs) and all(c.fn.qname in rel for c in cs)

def removes(P, c):
    rm = ("remove", "unlink", "frt_h_del")
    if c.extra != "direct": return P.slot(c) == "FrtStore.remove"
    if c.callee in rm: return True
    t = P.lookup(c.fn.mod, c.callee)
    return t is not None and t.internal and any(x.extra == "direct" and x.callee in rm for x in P.calls[t.qname])

def rule7(P, R):
    """names under which locks that end up in a write_lock member, or that are asked for their state, are opened"""
    import re as _re
    names = {}
    for q, f in sorted(P.funcs.items()):
        for c in P.calls[q]:
            if c.extra != "direct" or c.callee != "frt_open_lock" or f.mod not in P.core_mods: continue
            for g, v in sources(P, f, c.ops[1]):
                e = P.expr(g, v)
                n = cstr(g.mod, e[1]) if e[0] == "global" else None
                if n is not None: names.setdefault(n, (f, c))
    if not names: raise AnalysisBroken("no lock is ever opened")
    for n, (f, c) in sorted(names.items()):
        R.check("R7", len(names) == 1, "%s:%s" % (f.file, c.line), f.qname, "opens the lock %r" % n,
                "opens the lock %r while others use %s: two writers could hold different locks of one index" % (n, sorted(x for x in names if x != n)), key="R7|%s|%s" % (f.qname, n))

def sources(P, f, v, depth=0):
    e = P.expr(f, v)
    if e[0] == "arg" and depth < 4:
        r = []
        for c in P.callers.get(f.qname, []):
            if c.extra == "direct" and len(c.ops) > e[1]: r += sources(P, c.fn, c.ops[e[1]], depth + 1)
        return r
    return [(f, v)]

def cstr(m, g):
    t = m.globals.get(g, "")
    x = re.search(r'c"((?:[^"\\]|\\.)*)"', t)
    return re.sub(r'\\00$', '', x.group(1)) if x else None

class ChangeEv(Events):
    """state: (lock released after a write, has_changes cleared since)"""
    virtual = False
    def __init__(self, P):
        self.extra = tuple(q for q, f in P.funcs.items() if any(i.op == "store" and written(P, f, i) for i in f.insts()))
    def is_event(self, P, c): return slot_is(P, c, "FrtLock.release") or (c.extra == "direct" and c.callee == "frt_sis_write")
    def skip(self, P, c, t): return t.qname == "frt_sis_write"
    def event(self, P, c, st):
        if c.extra == "direct" and c.callee == "frt_sis_write": return [("wrote", False)], None
        if slot_is(P, c, "FrtLock.release"):
            if st[0] == "wrote" and (lockfield(P, c) or "") == "FrtIndexReader.write_lock": return [("released", st[1])], None
            return [st], None
        return None
    def step(self, P, i, st):
        if i.op == "store":
            v = written(P, i.fn, i)
            if v is not None: return (st[0], True) if v[1] == ("const", 0) else ("none", False)    # a later change
        return st

def written(P, f, i):
    b = P.bit_write(f, i)
    if b is None and P.field_addr(f, i.ops[1]) == "FrtIndexReader.has_changes": b = ("FrtIndexReader.has_changes", P.expr(f, i.ops[0]))
    return b if b and b[0] == "FrtIndexReader.has_changes" else None

def rule8(P, R):
    ev = ChangeEv(P); eng = Engine(P, ev)
    for q in sorted(eng.rel):
        f = P.funcs[q]
        if not any(slot_is(P, c, "FrtLock.release") for g in P.reach([q]) for c in P.calls[g]): continue
        cs = [c for c in P.callers.get(q, []) if c.extra == "direct"]
        if f.internal and cs: continue
        eng.memo.clear()
        ret, _ = eng.run(f, ("none", False))
        rel = [s for s in ret if s[0] == "released"]
        if not rel: continue
        R.analyse(f)
        R.check("R8", all(s[1] for s in rel), "%s:%s" % (f.file, f.line), q, "gives the lock back with no change left pending",
                "gives the write lock back but still counts its changes as pending: the next commit would be written without the lock", key="R8|" + q)

def owner_params(P):
    """function -> position of the parameter that becomes is_owner"""
    r = {}
    for q, f in P.funcs.items():
        for i in f.insts():
            if i.op != "store": continue
            b = P.bit_write(f, i)
            if b is None and P.field_addr(f, i.ops[1]) == "FrtIndexReader.is_owner": b = ("FrtIndexReader.is_owner", P.expr(f, i.ops[0]))
            if b and b[0] == "FrtIndexReader.is_owner":
                x = b[1]
                while x[0] in ("bin", "cmp"): x = x[2]
                if x[0] == "arg": r[q] = x[1]
    ch = True
    while ch:
        ch = False
        for q, f in P.funcs.items():
            if q in r: continue
            for c in P.calls[q]:
                if c.extra != "direct": continue
                t = P.lookup(f.mod, c.callee)
                if t is not None and t.qname in r and r[t.qname] < len(c.ops):
                    e = P.expr(f, c.ops[r[t.qname]])
                    while e[0] in ("bin", "cmp"): e = e[2]
                    if e[0] == "arg": r[q] = e[1]; ch = True
    return r

def rule9(P, R):
    op = owner_params(P)
    if not P.has("frt_ir_open"): return
    reach = P.reach([P.fn("frt_ir_open").qname])
    for q in sorted(reach):
        f = P.funcs[q]
        for c in P.calls[q]:
            if c.extra != "direct" or c.res is None: continue
            t = P.lookup(f.mod, c.callee)
            if t is None or t.qname not in op or q in op: continue
            k = P.expr(f, c.ops[op[t.qname]])
            if k[0] != "const": continue
            role = reader_role(P, f, c.res)
            if role is None: continue
            R.analyse(f)
            R.check("R9", (k[1] != 0) == (role == "top"), "%s:%s" % (f.file, c.line), q, "%s reader, %s" % (role, "owns its commits" if k[1] else "does not own"),
                    "the reader handed out does not own its commits: it changes the index without the write lock and never commits" if role == "top" else
                    "a segment's reader owns commits although the reader over all segments writes them: it would commit without that reader's lock", key="R9|%s|%s" % (q, role))

def reader_role(P, f, v, depth=0):
    """'sub': put in an array of readers; 'top': returned, or recorded as the reader that was opened"""
    r = set()
    for u in f.users(v):
        if u.op == "store" and u.ops[0] == v:
            e = P.expr(f, u.ops[1])
            if e[0] == "index": r.add("sub")
            elif e[0] == "field": r.add("top")
            elif e[0] == "alloca" and depth < 3:
                for l in f.users(e[1]):
                    if l.op == "load": r.add(reader_role(P, f, l.res, depth + 1))
        elif u.op == "ret": r.add("top")
        elif u.op == "phi" and depth < 3: r.add(reader_role(P, f, u.res, depth + 1))
        elif u.op in ("getelementptr",): pass
    r.discard(None)
    return r.pop() if len(r) == 1 else None
