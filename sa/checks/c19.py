"""C19: changes made through one object by several threads are serialised by the object's lock."""
import re
from prog import explore, AnalysisBroken
import lockset, own, leak

# what each lock protects: field -> kinds of access ("W" writes, "R" reads, "D" looking at what the field refers to)
GUARDS = {
    "FrtIndex.mutex": {"FrtIndex.sea": "RW", "FrtIndex.ir": "RW", "FrtIndex.iw": "RW", "FrtIndex.has_writes": "RW"},
    "FrtIndexWriter.mutex": {"FrtIndexWriter.dw": "RW", "FrtIndexWriter.sis": "RW", "FrtIndexWriter.*": "W", "FrtDocWriter.*": "W"},
    "FrtIndexReader.mutex": {"FrtIndexReader.has_changes": "RW", "FrtIndexReader.write_lock": "RW", "FrtIndexReader.is_stale": "W",
                             "SegmentReader.deleted_docs": "WD", "SegmentReader.undelete_all": "RW", "SegmentReader.deleted_docs_dirty": "RW",
                             "SegmentReader.norms_dirty": "RW", "Norm.is_dirty": "RW", "Norm.bytes": "RW",
                             "FrtMultiReader.num_docs_cache": "W", "FrtMultiReader.norms_cache": "RW", "FrtMultiReader.has_deletions": "W"},
    "FrtIndexReader.field_index_mutex": {"FrtIndexReader.field_index_cache": "RW"},
    "FrtSegmentFieldIndex.mutex": {"FrtSegmentTermIndex.index_terms": "W", "FrtSegmentTermIndex.index_ptrs": "W"},
    "FrtQueryParser.mutex": {"FrtQueryParser.qstr": "RW", "FrtQueryParser.result": "RW", "FrtQueryParser.qstrp": "RW"},
}

# the last step of an operation, offered to callers that hold the lock
HALVES = {"frt_index_auto_flush_ir", "frt_index_auto_flush_iw"}

class Held:
    """mutex classes certainly held at each instruction"""
    def __init__(self, P):
        self.P = P; self.h = {}
        self.sums, self.dest, an = lockset.ret_effects(P)
        for q in an:
            f = P.funcs[q]; cls = self.classes(f, 0)
            me = self
            class Cl(lockset.LockClient):
                def step(s, i, st): me.note(i, st, cls); return lockset.LockClient.step(s, i, st)
                def call(s, i, st): me.note(i, st, cls); return lockset.LockClient.call(s, i, st)
            explore(P, f, frozenset(), Cl(P, f, self.sums, self.dest))
    def classes(self, f, n):
        P = self.P; r = {}
        for c in P.calls[f.qname]:
            if c.extra == "direct" and c.callee in lockset.LOCKOPS: r[P.loc(f, c.ops[0])] = lockset.mclass(P, f, c.ops[0])
            elif c.extra == "direct" and n < 3:
                for t in P.targets(c):
                    if t.qname not in self.sums: continue
                    act = lockset.actuals(P, f, c)
                    for p, k in self.classes(t, n + 1).items(): r[lockset.subst(p, act)] = k
        return r
    def note(self, i, st, cls):
        s = frozenset(cls.get(p, "?." + p.rsplit(".", 1)[-1]) for o, p in st if o == "L")
        self.h[i] = s if i not in self.h else self.h[i] & s
    def at(self, i): return self.h.get(i, frozenset())

def covers(guards, fa, rw):
    k = guards.get(fa) or guards.get(fa.split(".")[0] + ".*")
    return k is not None and rw in k

def root(P, L, f, v, n=0):
    """argument index of the object v belongs to or is reached from, "new" if that was made in the function, None otherwise"""
    if n > 8: return None
    e = P.expr(f, v)
    while True:
        if e[0] in ("field", "index", "load"): e = e[1]
        elif e[0] == "arg": return e[1]
        elif e[0] == "call":
            c = e[1]
            if L.call_fresh(c) or temp(L, f, c): return "new"
            return root(P, L, f, c.ops[0], n + 1) if c.ops and isinstance(c.ops[0], str) else None
        elif e[0] == "phi":
            r = {root(P, L, f, o, n + 1) for o in e[1].ops if o != "null"}
            return r.pop() if len(r) == 1 else None
        else: return None

def temp(L, f, c):
    """opened and closed again by the function"""
    vs = {c.res}
    for i in L.uses(f, c.res):
        if i.op == "store" and i.ops[0] == c.res and i.ops[1] in own.cells(f): vs |= {j.res for j in L.uses(f, i.ops[1]) if j.op == "load"}
    return any(u.op == "call" and any(o in vs and k in L.own.call_consumes(u) for k, o in enumerate(u.ops)) for v in vs for u in L.uses(f, v))

def followed(P, L, f, v, n=0):
    """what v points to is read: here, or by a function it is handed to"""
    for u in L.uses(f, v):
        if u.op == "load" and u.ops[0] == v: return True
        if u.op == "getelementptr" and u.ops[0] == v and any(w.op == "load" and w.ops[0] == u.res for w in L.uses(f, u.res)): return True
        if u.op == "call" and n < 3:
            for t in P.targets(u):
                for k, o in enumerate(u.ops):
                    if o == v and k < len(t.args) and followed(P, L, t, t.args[k], n + 1): return True
        if u.op == "store" and u.ops[0] == v and u.ops[1] in own.cells(f):
            if any(j.op == "load" and j.ops[0] == u.ops[1] and followed(P, L, f, j.res, n) for j in L.uses(f, u.ops[1])): return True
    return False

def exposed(P, L, O, H, m, guards):
    """q -> {(root, field, rw): (function, line)}: protected accesses the function makes without the lock"""
    ex = {q: {} for q in P.funcs}; own_ = {}
    for q, f in P.funcs.items():
        for i in f.insts():
            if i.op not in ("load", "store"): continue
            a = i.ops[0] if i.op == "load" else i.ops[1]
            fa = P.field_addr(f, a)
            if not fa: continue
            fs = [fa]
            if "|" in fa: fs = ["%s.%s" % (fa.split(".")[0], n) for n in fa.split(".", 1)[1].split("|")]
            for x in fs:
                k = guards.get(x, "")
                if "D" in k and i.op == "load":
                    if not followed(P, L, f, i.res): continue
                elif not covers(guards, x, "W" if i.op == "store" else "R"): continue
                if i.op == "load" and "D" not in k and not all(covers(guards, y, "R") for y in fs): continue     # another bit of the same word, or a store's read
                if m in H.at(i): continue
                r = root(P, L, f, a)
                if r != "new": ex[q].setdefault((r, x, "W" if i.op == "store" else "R"), (q, i.line))
    done = {}
    ch = True
    while ch:
        ch = False
        for q, f in P.funcs.items():
            for c in P.calls[q]:
                if m in H.at(c): continue
                s = P.slot(c) if c.extra != "direct" else None
                if s and re.search(r"free_\w+_i$|\.free_func$", s): continue
                for t in lockset.vtargets(P, c):
                    for (r, x, rw), v in list(ex[t.qname].items()):
                        if isinstance(r, int):
                            if r in O.consumes(t): continue         # on its way out
                            n = root(P, L, f, c.ops[r]) if r < len(c.ops) and isinstance(c.ops[r], str) else None
                            if n == "new": continue
                        else: n = None
                        if (n, x, rw) not in ex[q]: ex[q][(n, x, rw)] = v; ch = True
    return ex

def run(P, R):
    R.rule("R1", "an operation that can be called from outside reaches state that its object's lock protects only while it holds that lock "
                 "(objects it makes itself, or is releasing, excepted)", floor=20)
    R.rule("R2", "the current commit is replaced, and the files a reader or writer starts from are found and opened, only under the store's lock", floor=3)
    R.rule("R3", "an operation does its work in one section under its object's lock: having given the lock back it does not take it again", floor=20)
    R.rule("R4", "a stream or enumerator that all users of a reader share is moved only under the lock; others work on a copy", floor=3)
    R.rule("R5", "a variable of the file that is used under a lock of the file is used nowhere without it", floor=1)
    L = leak.Leak(P); O = own.Own(P); H = Held(P); L.own = O
    at = lockset.address_taken(P)
    for m, g in GUARDS.items():
        if not any(lockset.mclass(P, P.funcs[q], c.ops[0]) == m for q, cs in P.calls.items() for c in cs if c.extra == "direct" and c.callee in lockset.LOCK):
            R.bad("R1", "c/src", m, "%s is never taken" % m, key="R1|%s" % m); continue
        ex = exposed(P, L, O, H, m, g)
        touch = reach(P, g); hp = helpers(P, H, m)
        for q, f in sorted(P.funcs.items()):
            if f.internal or not touch.get(q): continue
            R.analyse(f)
            if q in hp or q in HALVES:
                R.ok("R1", "%s:%s" % (f.file, f.line), "%s is called with %s held" % (q, m)); continue
            bad = {k: v for k, v in ex[q].items() if not (isinstance(k[0], int) and k[0] in O.consumes(f))}
            if not bad: R.ok("R1", "%s:%s" % (f.file, f.line), "%s: %s" % (q, m)); continue
            # charged where the access is, or to the outermost call without the lock
            (r, x, rw), v = sorted(bad.items(), key=lambda y: (str(y[1][0]) != q, str(y)))[0]
            if v[0] != q and v[0] in P.funcs and not P.funcs[v[0]].internal and v[0] not in hp: 
                R.ok("R1", "%s:%s" % (f.file, f.line), "%s: through %s" % (q, v[0])); continue
            R.bad("R1", "%s:%s" % (P.funcs[v[0]].file, v[1]), q, "%s %s (in %s) without holding %s" % ("changes" if rw == "W" else "reads", x, v[0], m), key="R1|%s|%s" % (q, m))

    shared_globals(P, R, H)
    commits(P, R, L, H)
    sections(P, R)
    cursors(P, R, L, H)
    R.assumption("Which lock protects which state is listed in the check; taking the lock of one object of a kind counts for all objects of the kind.")
    R.assumption("Reads of a reader by several threads are not judged: they share file handles.")

def shared_globals(P, R, H):
    """a file-scope lock: whatever file-scope variable is ever used under it is always used under it"""
    at = lockset.address_taken(P)
    gm = {}
    for q, cs in P.calls.items():
        for c in cs:
            if c.extra == "direct" and c.callee in lockset.LOCK:
                e = P.expr(P.funcs[q], c.ops[0])
                if e[0] == "global": gm.setdefault(e[1], set()).add(P.funcs[q].file)
    for m, files in sorted(gm.items()):
        acc = {}
        for q, f in P.funcs.items():
            if f.file not in files: continue
            for i in f.insts():
                if i.op in ("load", "store"):
                    e = P.expr(f, i.ops[0] if i.op == "load" else i.ops[1])
                    if e[0] == "global" and e[1] != m: acc.setdefault(e[1], []).append(i)
        for g, xs in sorted(acc.items()):
            if not any(m in H.at(i) for i in xs) or not any(i.op == "store" for i in xs): continue
            for i in xs:
                f = i.fn; R.analyse(f)
                R.check("R5", m in H.at(i) or always(P, H, m, f, at), "%s:%s" % (f.file, i.line), f.qname, "%s used under %s" % (g, m),
                        "%s the shared %s without holding %s" % ("changes" if i.op == "store" else "reads", g, m), key="R5|%s|%s" % (f.qname, g))

def commits(P, R, L, H):
    at = lockset.address_taken(P)
    m = "FrtStore.mutex"
    if P.has("frt_sis_write"):
        for c in P.callers[P.fn("frt_sis_write").qname]:
            f = c.fn
            r = root(P, L, f, c.ops[0])
            R.check("R2", m in H.at(c) or r == "new" or always(P, H, m, f, at), "%s:%s" % (f.file, c.line), f.qname, "commit written under the store's lock" if r != "new" else "a new index",
                    "writes a commit without holding the store's lock", key="R2|write|%s" % f.qname)
    if P.has("frt_ir_open"):
        f = P.fn("frt_ir_open")
        cbs = {t.qname: t for c in P.calls[f.qname] for o in c.ops if isinstance(o, str) for t in P._fnvals(f, o)}
        for i in f.insts():
            if i.op == "store":
                for t in P._fnvals(f, i.ops[0]): cbs[t.qname] = t
        for q, t in sorted(cbs.items()):
            b = opens(P, H, m, t, set())
            R.check("R2", b is None, "%s:%s" % ((b.fn.file, b.line) if b is not None else (t.file, t.line)), q, "%s opens the files of a commit under the store's lock" % q,
                    "opens a file of the commit it reads (through %s) without holding the store's lock" % (P.callee_name(b) if b is not None else ""), key="R2|open|%s" % q)

def sections(P, R):
    """no way from an unlock of an object's lock to another lock of it in the same function"""
    for q, f in sorted(P.funcs.items()):
        by = {}
        for c in P.calls[q]:
            if c.extra == "direct" and c.callee in lockset.LOCK | lockset.UNLOCK:
                m = lockset.mclass(P, f, c.ops[0])
                if m in GUARDS: by.setdefault((m, P.loc(f, c.ops[0])), []).append(c)
        for (m, p), cs in sorted(by.items()):
            again = None
            for u in cs:
                if u.callee not in lockset.UNLOCK: continue
                seen = set(); todo = [(u.bb, u.bb.insts.index(u) + 1)]
                while todo and again is None:
                    b, n = todo.pop()
                    for i in b.insts[n:]:
                        if i in cs and i.callee in lockset.LOCK: again = i; break
                        if i.op == "call" and i.extra == "direct" and (i.callee in P.noreturn or i.callee == "frt_xraise"): break
                    else:
                        for x in b.succs:
                            x = f.blocks[x] if isinstance(x, str) else x
                            if x.name not in seen: seen.add(x.name); todo.append((x, 0))
            R.check("R3", again is None, "%s:%s" % (f.file, again.line if again is not None else cs[0].line), q, "%s: one section under %s" % (q, m),
                    "takes %s again after giving it back: other threads see the operation half done" % m, key="R3|%s|%s" % (q, m))

SHARED = {"SegmentReader.fr": "FrtIndexReader.mutex", "SegmentReader.frq_in": "FrtIndexReader.mutex", "SegmentReader.prx_in": "FrtIndexReader.mutex",
          "FrtTermInfosReader.orig_te": "FrtIndexReader.mutex", "FrtSegmentFieldIndex.index_te": "FrtSegmentFieldIndex.mutex"}

def cursors(P, R, L, H):
    at = lockset.address_taken(P)
    mv = set()
    for q, f in P.funcs.items():
        if any(i.op == "store" and (P.field_addr(f, i.ops[1]) or "") in ("FrtBuffer.pos", "FrtBuffer.start") and root(P, L, f, i.ops[1]) != "new" for i in f.insts()): mv.add(q)
    ch = True
    while ch:
        ch = False
        for q, f in P.funcs.items():
            if q in mv: continue
            for c in P.calls[q]:
                if any(t.qname in mv for t in P.targets(c)) and c.ops and isinstance(c.ops[0], str) and root(P, L, f, c.ops[0]) != "new": mv.add(q); ch = True; break
    for q, f in sorted(P.funcs.items()):
        for c in P.calls[q]:
            for n, o in enumerate(c.ops):
                fa = P.field_load(f, o) if isinstance(o, str) else None
                if fa not in SHARED: continue
                ts = P.targets(c)
                if root(P, L, f, o) == "new" or any(re.search(r"close|destroy", t.qname) for t in ts): continue
                if n != 0: continue
                bad = any(t.qname in mv for t in ts) and SHARED[fa] not in H.at(c) and not always(P, H, SHARED[fa], f, at)
                R.check("R4", not bad, "%s:%s" % (f.file, c.line), q, "%s handed to %s" % (fa, P.callee_name(c)),
                        "%s moves the shared %s without holding %s" % (P.callee_name(c), fa, SHARED[fa]), key="R4|%s|%s" % (q, fa))

def always(P, H, m, f, at, n=0):
    """an internal function that is only ever called with the lock held"""
    if not f.internal or f.qname in at or n > 4: return False
    cs = P.callers[f.qname]
    return bool(cs) and all(m in H.at(c) or always(P, H, m, c.fn, at, n + 1) for c in cs)

def opens(P, H, m, t, seen):
    if t.qname in seen: return None
    seen.add(t.qname)
    for c in P.calls[t.qname]:
        if m in H.at(c): continue
        if c.extra != "direct" and P.slot(c) == "FrtStore.open_input": return c
        for x in P.targets(c) if c.extra == "direct" else []:
            b = opens(P, H, m, x, seen)
            if b is not None: return b
    return None

def reach(P, g):
    r = {}
    for q, f in P.funcs.items():
        r[q] = any(i.op in ("load", "store") and any(covers(g, x, "W") or covers(g, x, "R") for x in [P.field_addr(f, i.ops[0] if i.op == "load" else i.ops[1]) or "?.?"]) for i in f.insts())
    ch = True
    while ch:
        ch = False
        for q in P.funcs:
            if not r[q] and any(r[t.qname] for c in P.calls[q] for t in lockset.vtargets(P, c)): r[q] = True; ch = True
    return r

def helpers(P, H, m):
    """called with the (non-recursive) lock held, by a function that holds it or by another of these"""
    r = {q for q in P.funcs if any(m in H.at(c) for c in P.callers[q] if c.extra == "direct")}
    while True:
        n = {t.qname for q in r for c in P.calls[q] if c.extra == "direct" for t in P.targets(c)} - r
        if not n: return r
        r |= n
