"""C01: nothing a commit still needs is discarded before a newer commit is complete."""
from automaton import Events, Engine
from prog import Client, explore, _handlers
import linear, loops
from sym import Sym

PENDING = "FrtDeleter.pending"

def anchors(P):
    P.fn("frt_sis_write"); P.fn("frt_sis_read"); P.fn("frt_sis_curr_seg_file_name")

def is_pending_add(P, c):
    return c.extra == "direct" and c.callee == "frt_hs_add" and P.field_load(c.fn, c.ops[0]) == PENDING

def is_remove(P, c):
    return c.extra != "direct" and P.slot(c) == "FrtStore.remove"

def scan_callbacks(P):
    """functions handed to a store's `each` that can queue a file for deletion"""
    r = set()
    for q, cs in P.calls.items():
        for c in cs:
            if P.slot(c) == "FrtStore.each":
                for o in c.ops:
                    if isinstance(o, str) and o.startswith("@"):
                        t = P.lookup(c.fn.mod, o[1:])
                        if t is not None and any(is_pending_add(P, k) for g in P.reach([t.qname]) for k in P.calls[g]): r.add(t.qname)
    return r

class Ev(Events):
    def __init__(self, P, R, scan):
        self.R = R; self.scan = scan; self.sites = set(); self.bad = {}
    def is_event(self, P, c):
        if is_pending_add(P, c) or is_remove(P, c): return True
        if c.extra == "direct" and c.callee in ("frt_sis_write", "frt_sis_read", "frt_sis_curr_seg_file_name"): return True
        return self.is_scan(P, c)
    def is_scan(self, P, c):
        return P.slot(c) == "FrtStore.each" and any(isinstance(o, str) and o.startswith("@") and
            P.lookup(c.fn.mod, o[1:]) is not None and P.lookup(c.fn.mod, o[1:]).qname in self.scan for o in c.ops)
    def skip(self, P, c, t):
        if t.qname in self.scan: return True
        # the store's own implementations are below the level of the property
        return c.extra != "direct" and (P.slot(c) or "").split(".")[0] in ("FrtStore", "FrtLock")
    def event(self, P, c, st):
        if is_pending_add(P, c):
            if st == "requeue": return [st], None
            return ["queued"], None
        if c.extra == "direct" and c.callee == "frt_sis_write": return ["committed"], [st]
        if c.extra == "direct" and c.callee == "frt_sis_read": return ["read"], [st]
        if c.extra == "direct" and c.callee == "frt_sis_curr_seg_file_name":
            return ["late-name" if st == "committed" else st], [st]
        if self.is_scan(P, c):
            if st not in ("read", "committed"): self.flag(c, st, "scan")
            return ["scanned"], [st]
        if is_remove(P, c):
            if st in ("committed", "scanned"): self.sites.add((c.fn.qname, c.line, st))
            else: self.flag(c, st, "remove")
            return [st], [st]
        return None
    def flag(self, c, st, what):
        self.bad.setdefault((self.root, what, st), c)

def run(P, R):
    anchors(P)
    R.rule("R1", "in every externally callable operation, an index file is removed only after the operation has written a new "
                 "commit following the last file it queued for removal, or after the start-up scan of a freshly read commit", floor=8)
    R.rule("R2", "the commit routine removes the previous commit file only after every stream it opened for the new one has been "
                 "closed without error", floor=1)
    R.rule("R3", "a new commit is written under a generation number strictly greater than the one being replaced, and the commit "
                 "file removed is strictly older than the one written", floor=2)
    R.rule("R4", "index code removes files only through the deleter (one function, which only ever handles queued or superseded files)", floor=1)
    R.rule("R5", "the start-up scan queues a file only if it is an index file, is not the current commit file, and is not one that "
                 "the current commit's segment list refers to", floor=1)
    R.rule("R6", "the files a commit refers to are those of every segment in its list: the start-up scan protects, and the commit file "
                 "lists, each of them; and a commit that was read is remembered under the number of the file it was read from")
    scan = scan_callbacks(P)
    if not scan: raise_broken("no start-up scan callback found")
    ev = Ev(P, R, scan)
    eng = Engine(P, ev)
    roots = [f for q, f in sorted(P.funcs.items()) if not f.internal and q in eng.rel and f.mod in P.core_mods
             and not deleter_method(P, f) and f.short != "frt_sis_write"]
    reachD = {q for q in eng.rel if any(is_remove(P, c) for g in P.reach([q]) for c in P.calls[g])}
    for f in roots:
        if f.qname not in reachD: continue
        ev.root = f.qname; R.analyse(f)
        before = set(ev.bad)
        eng.memo.clear()
        eng.run(f, "start")
        new = set(ev.bad) - before
        for k in sorted(new):
            c = ev.bad[k]
            R.bad("R1", "%s:%s" % (c.fn.file, c.line), c.fn.qname,
                  {"remove": "reached from %s, removes an index file although no commit has been completed since the file was queued (state: %s)",
                   "scan": "reached from %s, scans for unreferenced files without having just read the commit (state: %s)"}[k[1]] % (f.qname, k[2]),
                  key="R1|%s|%s" % (c.fn.qname, k[1]))
        if not new: R.ok("R1", "%s:%s" % (f.file, f.line), "%s: every removal follows a completed commit" % f.qname)
    R.analyse(*sorted(eng.visited))
    rule2(P, R); rule3(P, R); rule4(P, R); rule5(P, R, scan); rule6(P, R, scan)
    R.assumption("A crash is a stop between two calls; the order of the library's calls is the order of effects (the operating system's "
                 "write-back order is outside the library).")
    R.assumption("sis_write returning normally means that the commit file has been written and closed (its own body is checked by R2).")

def raise_broken(m):
    from irbuild import AnalysisBroken
    raise AnalysisBroken(m)

def deleter_method(P, f, seen=()):
    """takes a Deleter as its first argument"""
    if f.qname in seen: return False
    for i in f.insts():
        if i.op == "getelementptr":
            e = P.expr(f, i.res)
            while e[0] in ("field", "index"):
                if e[0] == "field" and e[2].startswith("FrtDeleter.") and e[1] == ("arg", 0): return True
                e = e[1]
    for c in P.calls[f.qname]:
        if c.extra == "direct" and c.ops and c.ops[0] in f.args and f.args.index(c.ops[0]) == 0:
            t = P.lookup(f.mod, c.callee)
            if t is not None and t is not f and deleter_method(P, t, seen + (f.qname,)): return True
    return False

def deleter_side(P, f, seen=()):
    """part of the deleter: uses a Deleter, or a helper called only from such functions"""
    if f.qname in seen: return True
    if any(i.op == "getelementptr" and "FrtDeleter." in str(P.field_of_gep(f, i)) for i in f.insts()): return True
    cs = P.callers.get(f.qname, [])
    return f.internal and bool(cs) and all(deleter_side(P, c.fn, seen + (f.qname,)) for c in cs)

class SisEv(Events):
    """open/close of the commit file's stream inside the commit routine"""
    def __init__(self): self.bad = []; self.ok = []
    virtual = False
    def const_name(self, P, c):
        e = P.expr(c.fn, c.ops[1])
        return e[0] == "global"
    def is_event(self, P, c):
        return P.slot(c) == "FrtStore.new_output" or (c.extra == "direct" and c.callee == "frt_os_close") or is_remove(P, c)
    def event(self, P, c, st):
        opened, openn = st
        if P.slot(c) == "FrtStore.new_output":
            if self.const_name(P, c): return [(opened, openn)], [st]
            return [(True, True)], [st]
        if c.extra == "direct" and c.callee == "frt_os_close": return [(opened, False)], [(opened, openn)]
        if is_remove(P, c):
            (self.ok if opened and not openn else self.bad).append(c)
            return [st], [st]
        return None

def rule2(P, R):
    f = P.fn("frt_sis_write"); R.analyse(f)
    ev = SisEv(); eng = Engine(P, ev)
    ret, _ = eng.run(f, (False, False))
    w = "%s:%s" % (f.file, f.line)
    if ev.bad:
        c = ev.bad[0]
        R.bad("R2", "%s:%s" % (c.fn.file, c.line), f.qname, "a file is removed before the new commit file has been written and closed", key="R2|remove")
    else:
        R.ok("R2", w, "%d removal site(s), all after the commit file was closed" % len(ev.ok))
    bad = [s for s in ret if not s[0] or s[1]]
    R.check("R2", not bad, w, f.qname, "returns only after the commit file was opened, written and closed",
            "can return normally although the commit file was not written and closed", key="R2|return")

def rule3(P, R):
    """symbolic generation: offset from its value on entry"""
    f = P.fn("frt_sis_write")
    gens = {"new": set(), "del": set()}
    import re
    def track(fn, off0, argmap, depth, ctxname):
        """argmap: arg index -> ('sis',) | ('gen', offset) | ('buf', offset)"""
        class Cl(Client):
            # state: (offset of generation, frozenset of (ssa, offset), frozenset of (buffer, offset))
            def val(self, st, v):
                for k, o in st[1]:
                    if k == v: return o
                if v in fn.args and argmap.get(fn.args.index(v), (None,))[0] == "gen": return argmap[fn.args.index(v)][1]
                return None
            def bindv(self, st, r, o):
                s = frozenset(x for x in st[1] if x[0] != r)
                return (st[0], s | {(r, o)} if o is not None else s, st[2])
            def step(self, i, st):
                if i.op == "load" and P.field_addr(fn, i.ops[0]) == "FrtSegmentInfos.generation":
                    return self.bindv(st, i.res, st[0])
                if i.op == "store" and P.field_addr(fn, i.ops[1]) == "FrtSegmentInfos.generation":
                    o = self.val(st, i.ops[0])
                    return (o if o is not None else "?", st[1], st[2])
                if i.op in ("add", "sub") and i.res:
                    a = self.val(st, i.ops[0])
                    k = i.ops[1]
                    if isinstance(a, int) and re.match(r'^-?\d+$', k):
                        return self.bindv(st, i.res, a + int(k) if i.op == "add" else a - int(k))
                if i.op in ("zext", "sext", "trunc", "bitcast") and self.val(st, i.ops[0]) is not None:
                    return self.bindv(st, i.res, self.val(st, i.ops[0]))
                return st
            def phi(self, i, prev, st):
                for v, b in i.extra:
                    if b == prev: return self.bindv(st, i.res, self.val(st, v))
                return st
            def bufof(self, st, v):
                for k, o in st[2]:
                    if k == v: return o
                if v in fn.args and argmap.get(fn.args.index(v), (None,))[0] == "buf": return argmap[fn.args.index(v)][1]
                d = fn.defs.get(v)
                if d is not None and d.op == "call": return self.val(st, v)
                if d is not None and d.op == "getelementptr": return self.bufof(st, d.ops[0])
                return None
            def call(self, i, st):
                if P.slot(i) == "FrtStore.new_output":
                    if P.expr(fn, i.ops[1])[0] != "global": gens["new"].add((self.bufof(st, i.ops[1]), fn.qname, i.line))
                    return [st], None
                if i.extra != "direct": return [st], None
                t = P.lookup(fn.mod, i.callee)
                if t is None: return [st], None
                nums = [(k, self.val(st, o)) for k, o in enumerate(i.ops) if isinstance(o, str) and self.val(st, o) is not None]
                # formatting a name from a generation into a buffer
                if nums and i.ty == "ptr" and not any(t.qname == x for x in ("frt_sis_write",)):
                    o = nums[-1][1]
                    st2 = self.bindv(st, i.res, o)
                    bufs = [b for b in i.ops if isinstance(b, str) and self.base(b)]
                    return [(st2[0], st2[1], frozenset(x for x in st2[2] if x[0] not in [self.base(b) for b in bufs]) |
                             {(self.base(b), o) for b in bufs})], None
                # removal of a named file
                names = [self.bufof(st, o) for o in i.ops if isinstance(o, str) and self.bufof(st, o) is not None] or \
                        [o2 for b in i.ops if isinstance(b, str) and self.base(b) for k, o2 in st[2] if k == self.base(b)]
                if names and any(is_remove(P, c) for g in P.reach([t.qname]) for c in P.calls[g]) and i.ty == "void":
                    if any("sis" == 1 for _ in ()): pass
                    if not touches_gen(P, t): gens["del"].add((names[0], fn.qname, i.line)); return [st], None
                if depth < 4 and t.internal and (touches_gen(P, t) or any(P.slot(c) in ("FrtStore.new_output", "FrtStore.remove") for c in P.calls[t.qname]) or names):
                    am = {}
                    for k, o in enumerate(i.ops):
                        if not isinstance(o, str): continue
                        if self.val(st, o) is not None: am[k] = ("gen", self.val(st, o))
                        elif self.bufof(st, o) is not None: am[k] = ("buf", self.bufof(st, o))
                    outs = track(t, st[0], am, depth + 1, ctxname)
                    return [(o, st[1], st[2]) for o in outs] or [st], None
                return [st], None
            def base(self, v):
                d = fn.defs.get(v)
                while d is not None and d.op == "getelementptr": v = d.ops[0]; d = fn.defs.get(v)
                return v if d is not None and d.op == "alloca" else None
        outs = set()
        cl = Cl(P)
        explore(P, fn, (off0, frozenset(), frozenset()), cl, on_exit=lambda k, s, i: outs.add(s[0]) if k == "ret" else None)
        return sorted(outs, key=repr)
    outs = track(f, 0, {}, 0, f.qname)
    w = "%s:%s" % (f.file, f.line)
    news = {o for o, _, _ in gens["new"]}; dels = {o for o, _, _ in gens["del"]}
    R.check("R3", bool(news) and all(isinstance(o, int) and o >= 1 for o in news), w, f.qname,
            "commit file written as generation +%s" % sorted(news, key=repr),
            "the commit file is not written under a generation greater than the current one (offsets: %s)" % sorted(news, key=repr), key="R3|new")
    ok = bool(news) and all(isinstance(o, int) for o in news) and all(isinstance(o, int) and o < min(news) for o in dels)
    R.check("R3", ok, w, f.qname, "commit files removed: generation %s" % sorted(dels, key=repr),
            "the commit file removed (generation offset %s) is not strictly older than the one written (%s)" % (sorted(dels, key=repr), sorted(news, key=repr)), key="R3|del")
    R.check("R3", all(o in news for o in outs), w, f.qname, "generation recorded in memory is the one written",
            "the generation kept in memory (%s) differs from the one written (%s)" % (outs, sorted(news, key=repr)), key="R3|mem")

def touches_gen(P, t):
    return any(i.op in ("load", "store") and P.field_addr(t, i.ops[-1]) == "FrtSegmentInfos.generation" for i in t.insts())

def rule4(P, R):
    for q, cs in sorted(P.calls.items()):
        for c in cs:
            if is_remove(P, c):
                f = c.fn
                w = "%s:%s" % (f.file, c.line)
                own = deleter_side(P, f)
                R.check("R4", own, w, q, "removal inside the deleter",
                        "an index file is removed directly, bypassing the deleter", key="R4|" + q)

def rule5(P, R, scan):
    for q in sorted(scan):
        f = P.funcs[q]; R.analyse(f)
        ev = ScanEv(P, [g for g in P.reach([q]) if P.funcs[g].mod is f.mod and P.funcs[g].internal and P.funcs[g].ret in ("i1", "i8", "i32")])
        eng = Engine(P, ev)
        eng.run(f, frozenset())
        w = "%s:%s" % (f.file, f.line)
        if not ev.adds: raise_broken("scan callback queues nothing")
        for facts, c in ev.adds:
            miss = []
            if "index-file" not in facts: miss.append("that it is an index file")
            if "not-current" not in facts: miss.append("that it is not the current commit file")
            if "not-gen" not in facts: miss.append("that it is not the generation file")
            if not ({"unreferenced"} & facts or {"name-differs"} & facts or {"part", "compound"} <= facts or {"part-f", "compound"} <= facts
                    or {"not-compound", "is-cfs"} <= facts):
                miss.append("that the current commit does not refer to it")
            R.check("R5", not miss, "%s:%s" % (c.fn.file, c.line), q, "queued under %s" % sorted(facts),
                    "a file can be queued for removal without having established " + " and ".join(miss), key="R5|" + ",".join(miss))

def seg_elem(k):
    """index of X->segs[index] that this key is (or is a field of)"""
    while isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], tuple):
        if k[0] == "ld" and k[1][0] == "at" and k[1][1] == ("ld", ("fld", k[1][1][1][1] if len(k[1][1]) > 1 and len(k[1][1][1]) > 1 else None, "FrtSegmentInfos.segs")):
            return k[1][2]
        if k[0] == "ld" and k[1] == ("ld", ("fld", k[1][1][1] if len(k[1]) > 1 and len(k[1][1]) > 1 else None, "FrtSegmentInfos.segs")): return ((), 0)
        k = k[1]
    return None

def rule6(P, R, scan):
    isc = lambda a: a[0] == "arg" or (a[0] == "ld" and a[1][0] == "fld" and a[1][2] == "FrtSegmentInfos.size")
    sis_write_side = {q for q in P.reach(["frt_sis_write"])}
    for q, f in sorted(P.funcs.items()):
        S = None
        for c in P.calls[q]:
            if c.extra != "direct" or not c.ops: continue
            prot = c.callee == "frt_h_set" and any(x.op == "store" and (P.field_addr(f, x.ops[1]) or "").startswith("DelFilesArg.") for x in f.insts())
            lists = q in sis_write_side and P.lookup(f.mod, c.callee) is not None
            if not prot and not lists: continue
            S = S or Sym(P, f)
            ks = [k for k in (seg_elem(S.key(o)) for o in c.ops if isinstance(o, str)) if k is not None]
            if not ks: continue
            r = loops.covers(S, f, c, ks[0], isc)
            if r is None: continue
            R.check("R6", not r, "%s:%s" % (f.file, c.line), q, "handles every segment of the list",
                    "the loop over the commit's segments %s, so a segment in use is %s" % (r, "not protected from removal" if prot else "missing from the commit"),
                    key="R6|%s|%s" % (q, c.callee))
        for i in f.insts():
            if i.op != "store" or P.field_addr(f, i.ops[1]) != "FrtSegmentInfos.generation": continue
            ops = [c for c in P.calls[q] if P.slot(c) == "FrtStore.open_input"]
            if not ops: continue
            S = S or Sym(P, f)
            for o in ops:
                b = S.key(o.ops[1])
                gens = [S.lin(c.ops[n]) for c in P.calls[q] if c is not o and c.extra == "direct" and any(isinstance(x, str) and S.key(x) == b for x in c.ops)
                        for n in range(len(c.ops)) if isinstance(c.ops[n], str) and is64(f, c, n)]
                if len(gens) != 1: continue
                R.check("R6", S.lin(i.ops[0]) == gens[0], "%s:%s" % (f.file, i.line), q, "the commit's number is that of the file read",
                        "the commit is remembered under a number other than that of the file it was read from", key="R6|%s|number" % q)

def is64(f, c, n):
    v = c.ops[n]
    d = f.defs.get(v)
    if d is not None: return d.op in ("load", "add", "sub", "zext", "sext", "phi") and (d.ty == "i64")
    return v in f.args and f.argtys[f.args.index(v)] == "i64"

class ScanEv(Events):
    virtual = False; rets = True
    def __init__(self, P, extra=()): self.adds = []; self.extra = extra
    def is_event(self, P, c): return is_pending_add(P, c)
    def event(self, P, c, st):
        if is_pending_add(P, c):
            self.adds.append((st, c)); return [st], None
        return None
    def branch(self, P, i, cond, taken, st):
        f = i.fn
        t = pred(P, f, P.expr(f, cond), taken)
        return st | {t} if t else st

def pred(P, f, e, truth):
    """tag for 'e has this truth value'"""
    while e[0] == "cmp" and e[1] in ("eq", "ne") and e[3] == ("const", 0) and e[2][0] in ("cmp", "bin"):
        if e[1] == "eq": truth = not truth
        e = e[2]
    if e[0] == "cmp" and e[1] in ("eq", "ne"):
        a, b = e[2], e[3]
        if a[0] == "const": a, b = b, a
        if b == ("const", ord("f")) and a[0] == "load" and (e[1] == "eq") == truth: return "part-f"
        if b != ("const", 0): return None
        nz = (e[1] == "ne") == truth
    else:
        a, nz = e, truth
    if a[0] == "call" and a[1].extra == "direct":
        c = a[1]; n = c.callee
        if n == "frt_file_name_filter_is_index_file": return "index-file" if nz else None
        if n == "frt_h_get":
            return "unreferenced" if not nz and lastf(P.up(f, c.ops[0])) == "DelFilesArg.current" else \
                   "part" if nz and P.up(f, c.ops[0])[0] == "load" and P.up(f, c.ops[0])[1][0] == "global" else None
        if n in ("strcmp", "strncmp"):
            args = [P.up(f, o) for o in c.ops[:2]]
            if nz:
                if any(lastf(x) == "DelFilesArg.curr_seg_file_name" for x in args): return "not-current"
                if any(x[0] == "global" and cstr(f.mod, x[1]) == "segments" for x in args): return "not-gen"
                if any(x[0] == "alloca" for x in args): return "name-differs"
            else:
                if any(x[0] == "global" and cstr(f.mod, x[1]) == "cfs" for x in args): return "is-cfs"
            return None
        t = P.lookup(f.mod, n)
        if t is not None and not nz and t.ret == "ptr" and any(i.op == "ret" and "null" in str(retvals(t, i)) for i in t.insts()):
            return "name-differs"       # no file of that kind in the current commit
    if lastf(a) == "FrtSegmentInfo.use_compound_file": return "compound" if nz else "not-compound"
    return None

def retvals(t, i):
    v = i.ops[0] if i.ops else None
    d = t.defs.get(v)
    return d.ops if d is not None and d.op == "phi" else [v]

def lastf(e):
    while e[0] in ("load", "index") or (e[0] == "bin" and e[1] in ("and",)): e = e[1] if e[0] != "bin" else e[2]
    return e[2] if e[0] == "field" else None

def has_field(e, name):
    if isinstance(e, tuple):
        if e[0] == "field" and e[2] == name: return True
        return any(has_field(x, name) for x in e[1:] if isinstance(x, tuple))
    return False

def returns_cfs(P, t):
    return any(c.callee == "strcmp" for c in P.calls[t.qname]) and any(c.callee == "frt_h_get" for c in P.calls[t.qname])

def cstr(m, g):
    import re
    t = m.globals.get(g, "")
    x = re.search(r'c"((?:[^"\\]|\\.)*)"', t)
    if not x: return None
    return re.sub(r'\\00$', '', x.group(1))
