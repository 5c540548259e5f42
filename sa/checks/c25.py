"""C25: everything an operation opens or creates is released, kept by an object that lives on, or handed to the caller."""
import re
from prog import explore, AnalysisBroken
import leak, own
RUBY = True

def run(P, R):
    R.rule("R1", "an object a function creates, opens or is given to own is, on every path to a return, released, stored in another object, "
                 "handed to a function that may keep it, or returned", floor=150)
    R.rule("R2", "a field that is the only home of objects created for it, or that holds a counted reference, is released somewhere for good: "
                 "handed to a function that frees it or may keep it, without being filled again", floor=60)
    R.rule("R3", "where an object is released through its own operation, every implementation of that operation releases it", floor=8)
    R.rule("R5", "a function that frees an object releases what objects of that kind own, or hands the object to a function that does", floor=10)
    R.rule("R4", "memory allocated for a kind of object that has something to release is itself freed somewhere", floor=20)
    L = leak.Leak(P); O = own.Own(P)
    skipped = []
    for q, f in sorted(P.funcs.items()):
        made = [c for c in P.calls[q] if c.ty == "ptr" and L.call_fresh(c)]
        if not made: continue
        out = {}
        def ex(k, st, i):
            if k == "ret":
                for x, o in st:
                    if x == "live": out.setdefault(o, i)
        try: explore(P, f, frozenset(), leak.LeakClient(L, f, L.call_fresh), on_exit=ex, max_states=150000)
        except AnalysisBroken: skipped.append(q); continue
        R.analyse(f)
        for o in sorted(out):
            c = f.defs[o]
            R.bad("R1", "%s:%s" % (f.file, c.line), q, "what %s created here is neither released, kept nor returned on a path to the return on line %s" % (P.callee_name(c), out[o].line),
                  key="R1|%s|%s" % (q, P.callee_name(c)))
        if not out: R.ok("R1", "%s:%s" % (f.file, f.line), "%s: %d object(s)" % (q, len(made)))
    fields(P, R, L, O)
    slots(P, R, L, O)
    types(P, R, L, O)
    R.assumption("An object handed to a function that stores it, or passed to code outside the program, counts as kept.")
    R.assumption("Exits by an error are not judged here.")
    if skipped: R.assumption("Not explored, too many paths: " + ", ".join(skipped))

def srcs(P, f, v, seen=None):
    """fields v was read from, through locals and merges (or whose address it is)"""
    seen = seen if seen is not None else set()
    if v in seen: return set()
    seen.add(v); d = f.defs.get(v)
    if d is None: return set()
    if d.op in ("bitcast", "freeze"): return srcs(P, f, d.ops[0], seen)
    if d.op == "getelementptr":
        fa = P.field_addr(f, v)
        return {fa} if fa else srcs(P, f, d.ops[0], seen)
    r = set()
    if d.op in ("phi", "select"):
        for o in d.ops: r |= srcs(P, f, o, seen)
    elif d.op == "load":
        fa = P.field_addr(f, d.ops[0])
        if fa: return {fa}
        if d.ops[0] in own.cells(f):
            for i in f.insts():
                if i.op == "store" and i.ops[1] == d.ops[0]: r |= srcs(P, f, i.ops[0], seen)
    return r

def refilled(P, f, c, fa):
    """every path on from c to a return stores something in the field again"""
    fills = {i for i in f.insts() if i.op == "store" and i.ops[0] != "null" and P.field_addr(f, i.ops[1]) == fa}
    if not fills: return False
    seen = set(); todo = [(c.bb, c.bb.insts.index(c) + 1)]
    while todo:
        b, n = todo.pop()
        for i in b.insts[n:]:
            if i in fills: break
            if i.op == "ret": return False
        else:
            for x in b.succs:
                x = f.blocks[x] if isinstance(x, str) else x
                if x.name not in seen: seen.add(x.name); todo.append((x, 0))
    return True

def destroyers(P, R, L, O, owned, relat, freed, strict):
    """a function that frees an object of a kind releases all that objects of this kind own, itself or in what it hands the object to"""
    ofs = {}
    for fa, (f, i, what) in owned.items():
        if "mutexes" not in what and "handed" not in what and fa in freed: ofs.setdefault("%struct." + fa.split(".")[0], set()).add(fa)
    found = []
    for q, f in sorted(P.funcs.items()):
        if not f.blocks: continue
        for n in O.consumes(f):
            a = f.args[n]
            # what the object is, from how it is used
            ts = {str(u.ty) for u in L.uses(f, a) if u.op == "getelementptr" and u.ops[0] == a}
            if not any(c.extra == "direct" and c.callee == "free" and c.ops[0] == a for c in P.calls[q]): continue
            seen = set(); done = below(P, f, n, relat, seen); found.append((q, f, ts, done, seen))
    # implementations of one operation free the same kind of object
    for sl, qs in P.slots.items():
        own_t = set().union(*(x[2] for x in found if x[0] in qs), set()) if len(qs) > 1 else set()
        if len(own_t) == 1:
            for x in found:
                if x[0] in qs and not x[2]: x[2].update(own_t)
    for q, f, ts, done, _ in found:
        for t in ts:
            inside = set().union(*(x[4] for x in found if t in x[2]))
            for fa in sorted(ofs.get(t, ())):
                # what is also released by itself, before the object goes, has a life of its own
                if all(fa not in v or g in inside for g, v in strict.items()):
                    R.check("R5", fa in done, "%s:%s" % (f.file, f.line), q, "%s is released with its object" % fa, "the object is freed here but its %s is not released" % fa, key="R5|%s|%s" % (q, fa))

def below(P, f, n, relat, seen):
    if f.qname in seen: return set()
    seen.add(f.qname); r = set(relat.get(f.qname, ()))
    for c in P.calls[f.qname]:
        for k, o in enumerate(c.ops):
            if o == f.args[n]:
                for t in P.targets(c):
                    if t.blocks and k < len(t.args): r |= below(P, t, k, relat, seen)
    return r

def uncounts(P, t, k):
    """t gives up one of the references to its k-th argument"""
    if not t.blocks or k >= len(t.args): return False
    for i in t.insts():
        if i.op != "store" or not (P.field_addr(t, i.ops[1]) or "").endswith(".ref_cnt"): continue
        g = t.defs.get(i.ops[1]); d = t.defs.get(i.ops[0])
        if g is not None and d is not None and g.op == "getelementptr" and g.ops[0] == t.args[k] and (d.op == "add" and d.ops[1] == "-1" or d.op == "sub" and d.ops[1] == "1"): return True
    return False

def fields(P, R, L, O):
    released = {}; freed = set(); relat = {}; strict = {}
    for q, f in sorted(P.funcs.items()):
        for c in P.calls[q]:
            s = P.slot(c) if c.extra != "direct" else None
            for k, o in enumerate(c.ops):
                if not isinstance(o, str) or c.extra == "direct" and c.callee.startswith("pthread_"): continue
                kp = L.call_keeps(c, k)
                if not (k in O.call_consumes(c) or kp is True or kp == "ret" and c.res and L.escapes(f, [c.res]) or s and re.search(r"(close|destroy|free)\w*$", s)): continue
                for fa in srcs(P, f, o):
                    if refilled(P, f, c, fa): continue
                    released.setdefault(fa, set()).add(q); relat.setdefault(q, set()).add(fa)
                    if k in O.call_consumes(c) or s and re.search(r"(close|destroy|free)\w*$", s) or any(uncounts(P, t, k) for t in P.targets(c)): freed.add(fa); strict.setdefault(q, set()).add(fa)
        for j in f.insts():
            if j.op != "store" or not (P.field_addr(f, j.ops[1]) or "").endswith(".ref_cnt"): continue
            g = f.defs.get(j.ops[1]); d = f.defs.get(j.ops[0])
            if g is not None and d is not None and g.op == "getelementptr" and (d.op == "add" and d.ops[1] == "-1" or d.op == "sub" and d.ops[1] == "1"): freed |= srcs(P, f, g.ops[0])
    owned = {}
    for q, f in sorted(P.funcs.items()):
        ups = [f.defs[f.defs[j.ops[1]].ops[0]] if f.defs[j.ops[1]].ops[0] in f.defs else f.defs[j.ops[1]].ops[0] for j in f.insts()
               if j.op == "store" and (P.field_addr(f, j.ops[1]) or "").endswith(".ref_cnt") and f.defs.get(j.ops[1]) is not None and f.defs[j.ops[1]].op == "getelementptr"
               and f.defs.get(j.ops[0]) is not None and f.defs[j.ops[0]].op == "add" and f.defs[j.ops[0]].ops[1] == "1"]
        # handed, created or counted for it, to a function that puts it in a field
        for c in P.calls[q]:
            if c.extra != "direct": continue
            t = P.lookup(f.mod, c.callee)
            if t is None or not t.blocks: continue
            for k, o in enumerate(c.ops[:len(t.args)]):
                d = f.defs.get(o) if isinstance(o, str) else None
                fresh = d is not None and d.op == "call" and d.ty == "ptr" and L.call_fresh(d)
                if fresh and any(u is not c and (u.op in ("ret", "phi", "select") or u.op == "store" and u.ops[0] == o and u.ops[1] not in own.cells(f)
                                 or u.op == "call") for u in L.uses(f, o)): continue
                if not fresh and not any(u == o or d is not None and u is d or d is not None and d.op == "load" and not isinstance(u, str) and u.op == "load" and u.ops[0] == d.ops[0] for u in ups): continue
                if not fresh and any(i.op == "store" and P.field_addr(f, i.ops[1]) and (i.ops[0] == o or d is not None and d.op == "load" and f.defs.get(i.ops[0]) is not None
                                     and f.defs[i.ops[0]].op == "load" and f.defs[i.ops[0]].ops[0] == d.ops[0]) for i in f.insts()): continue
                homes = [(i, P.field_addr(t, i.ops[1])) for i in t.insts() if i.op == "store" and i.ops[0] == t.args[k]]
                used = [u for u in L.uses(t, t.args[k]) if u.op in ("ret", "phi", "select") or u.op == "call" and any(L.call_keeps(u, n) for n, x in enumerate(u.ops) if x == t.args[k])]
                homes = [h for h in homes if h[1]]
                if len(homes) == 1 and not used: owned.setdefault(homes[0][1], (t, homes[0][0], "objects handed over for"))
        for i in f.insts():
            if i.op != "store": continue
            fa = P.field_addr(f, i.ops[1])
            if not fa: continue
            d = f.defs.get(i.ops[0])
            if d is not None and d.op == "call" and d.ty == "ptr" and L.call_fresh(d):
                # another home: stored twice, returned, or handed on
                other = False
                for u in L.uses(f, d.res):
                    if u is i: continue
                    if u.op == "store" and u.ops[0] == d.res and u.ops[1] not in own.cells(f): other = True
                    if u.op in ("ret", "phi", "select"): other = True
                    if u.op == "call" and any(L.call_keeps(u, k) is True for k, o in enumerate(u.ops) if o == d.res): other = True
                if not other: owned.setdefault(fa, (f, i, "objects created for"))
            elif any(u == i.ops[0] or d is not None and u is d or d is not None and d.op == "load" and not isinstance(u, str) and u.op == "load" and u.ops[0] == d.ops[0] for u in ups):
                owned.setdefault(fa, (f, i, "references counted for"))
    # elements of tables
    gone = set()
    for q, f in sorted(P.funcs.items()):
        for i in f.insts():
            e = elem(P, f, i.res) if i.op == "load" and i.ty == "ptr" else None
            if e and (e in gone or L.escapes(f, [i.res])): gone.add(e)
    for q, f in sorted(P.funcs.items()):
        for i in f.insts():
            if i.op != "store": continue
            d = f.defs.get(i.ops[0])
            if d is None or d.op != "call" or d.ty != "ptr" or not L.call_fresh(d): continue
            e = elem(P, f, None, i.ops[1])
            if not e or any(u is not i and (u.op in ("ret", "phi", "select") or u.op == "store" and u.ops[0] == d.res) for u in L.uses(f, d.res)): continue
            R.check("R2", e in gone or handed(P, L, f, e), "%s:%s" % (f.file, i.line), q, "elements of %s" % e[1], "the objects put in the table %s are never released" % e[1], key="R2|%s[]" % e[1])
    for q, f in sorted(P.funcs.items()):
        for c in P.calls[q]:
            if c.extra == "direct" and c.callee in ("pthread_mutex_init", "pthread_mutex_destroy"):
                for fa in srcs(P, f, c.ops[0]):
                    if c.callee == "pthread_mutex_init": owned.setdefault(fa, (f, c, "mutexes made in"))
                    else: released.setdefault(fa, set()).add(q)
    destroyers(P, R, L, O, owned, relat, freed, strict)
    for fa, (f, i, what) in sorted(owned.items()):
        R.check("R2", fa in (freed if "counted" in what or "handed" in what else released), "%s:%s" % (f.file, i.line), f.qname, "%s, released in %s" % (fa, ", ".join(sorted(released.get(fa, ()))[:3])),
                "%s %s are never released" % (what, fa), key="R2|%s" % fa)

def elem(P, f, v, a=None):
    """the table (a field, or a local of this function) an element was read from, or is stored in"""
    if a is None:
        d = f.defs.get(v)
        if d is None or d.op != "load": return None
        a = d.ops[0]
    g = f.defs.get(a)
    if g is None: return None
    if g.op == "getelementptr" and len(g.ops) == 2: g = f.defs.get(g.ops[0])
    if g is None: return None
    if g.op == "load" and g.ty == "ptr":
        fa = P.field_addr(f, g.ops[0])
        if fa: return ("field", fa)
        if g.ops[0] in own.cells(f): return local(P, f, f.qname, g.ops[0])
        return None
    if g.op == "call" and g.ty == "ptr": return local(P, f, f.qname, g.res)
    return None

def handed(P, L, f, e):
    """a local table that is itself handed on, stored or returned"""
    if e[0] == "field": return False
    c = e[0].split(" of ")[0]; vs = {c}
    if c in own.cells(f): vs = {i.res for i in L.uses(f, c) if i.op == "load"}
    for v in vs:
        for u in L.uses(f, v):
            if u.op in ("ret", "phi", "select") or u.op == "store" and u.ops[0] == v and u.ops[1] not in own.cells(f): return True
            if u.op == "call" and not (u.extra == "direct" and u.callee in ("free", "frt_erealloc")): return True
    return False

def local(P, f, q, c):
    """a table that stays in the function"""
    if c not in own.cells(f):
        for i in f.insts():
            if i.op == "store" and i.ops[0] == c and i.ops[1] in own.cells(f): c = i.ops[1]; break
    return ("%s of %s" % (c, q), f.varnames.get(c, c) + " of " + q)

def slots(P, R, L, O):
    sites = {}
    for q, f in P.funcs.items():
        for c in P.calls[q]:
            if c.extra == "direct": continue
            s = P.slot(c); e = P.expr(f, c.callee) if s else None
            if not s: continue
            for n, o in enumerate(c.ops):
                # the operation comes from the object it is given
                if isinstance(o, str) and e[0] == "load" and e[1][0] == "field" and P.expr(f, o) in (e[1][1], e[1]): sites.setdefault((s, n), (f, c))
    for (s, n), (f, c) in sorted(sites.items(), key=lambda x: x[0]):
        ts = [t for t in P.targets(c) if t.qname not in P.noreturn]
        done = [t for t in ts if n in O.consumes(t)]
        if not done: continue
        for t in ts:
            ok = t in done or L.keeps(t, n) is True or shared(P, t, n)
            R.check("R3", ok, "%s:%s" % (t.file, t.line), t.qname, "%s releases its argument" % t.qname,
                    "%s does not release the object it is called for, as the other implementations of %s do" % (t.qname, s), key="R3|%s" % t.qname)

def shared(P, t, n):
    """released through a table all users share: a global is handed on together with something of the object"""
    for c in P.calls[t.qname]:
        if any(isinstance(o, str) and o.startswith("@") for o in c.ops) or any(P.expr(t, o)[0] in ("global", "load") and str(P.expr(t, o)).count("global") for o in c.ops if isinstance(o, str)):
            if any(isinstance(o, str) and o == t.args[n] or str(P.expr(t, o)).find("('arg', %d" % n) >= 0 for o in c.ops if isinstance(o, str)): return True
    return False

def stypes(L, f, v):
    """struct types through which v, or the local it is kept in, is accessed"""
    vs = {v}; cl = own.cells(f); d = f.defs.get(v)
    if d is not None and d.op == "load" and d.ops[0] in cl: vs |= {i.res for i in L.uses(f, d.ops[0]) if i.op == "load"}
    for i in L.uses(f, v):
        if i.op == "store" and i.ops[0] == v and i.ops[1] in cl: vs |= {j.res for j in L.uses(f, i.ops[1]) if j.op == "load"}
    return {u.ty for x in vs for u in L.uses(f, x) if u.op == "getelementptr" and u.ops[0] == x and str(u.ty).startswith("%struct.")}

def bases(P, t):
    out = [t]
    while True:
        x = next((P._elt(m, out[-1], 0) for m in P.mods if m.structs.get(out[-1][1:], "opaque") != "opaque"), None)
        if x is None or not str(x).startswith("%struct.") or x in out: return out
        out.append(x)

def types(P, R, L, O):
    made = {}; freed = set(); parts = set()
    for q, f in sorted(P.funcs.items()):
        for c in P.calls[q]:
            if c.extra == "direct" and c.callee in ("frt_emalloc", "frt_ecalloc", "malloc", "calloc"):
                for t in stypes(L, f, c.res): made.setdefault(t, (f, c))
            for n in O.call_consumes(c):
                if n >= len(c.ops) or not isinstance(c.ops[n], str): continue
                freed |= stypes(L, f, c.ops[n])
                for fa in srcs(P, f, c.ops[n]): parts.add("%struct." + fa.split(".")[0])
        for n in O.consumes(f): freed |= stypes(L, f, f.args[n])
    down = {}
    for t in made:
        for b in bases(P, t): down.setdefault(b, set()).add(t)
    for t, (f, c) in sorted(made.items()):
        bs = bases(P, t)
        if not any(b in parts for b in bs): continue
        ok = any(b in freed for b in bs) or any(x in freed for x in down.get(t, ()))
        R.check("R4", ok, "%s:%s" % (f.file, c.line), f.qname, "%s is freed" % t[8:], "objects of type %s are emptied but never freed" % t[8:], key="R4|%s" % t[8:])
