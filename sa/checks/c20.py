"""C20: what sorts, queues and merges compare by is a consistent order, and the same one for one index and for several."""
import re, itertools
from irbuild import AnalysisBroken
import order
from order import enumerate_, Unsupported, canon, fields, show
UNIFORM = {"FrtFieldDoc.size": (0, 1, 2), "FrtComparable.type": tuple(range(8)), "FrtComparable.reverse": (0, 1)}

def run(P, R):
    R.rule("R1", "a comparison function is a strict weak order (queues) or an antisymmetric, transitive three-way comparison (sorts): checked for every "
                 "way three elements can rank in each part it looks at", floor=8)
    R.rule("R2", "a comparison function compares a part of one element with the same part of the other, and no difference is cut short before its sign is used", floor=8)
    R.rule("R3", "hits that rank equal in everything else are ordered by document number, and hits ranked by score by descending score", floor=1)
    R.rule("R4", "for every kind of sort, plain and reversed, the order of hits within one index and across several is the same, and the value carried across is "
                 "the one compared within", floor=4)
    R.rule("R5", "terms are sorted and merged in ascending byte order; for the same term, in the order of the segments", floor=2)
    comps = comparators(P)
    if not comps: raise AnalysisBroken("no comparison function found")
    names = enum_names(P, "FRT_SORT_TYPE_")
    if names: UNIFORM["FrtComparable.type"] = tuple(sorted(names))
    for (q, kind, ai), use in sorted(comps.items()):
        f = P.funcs[q]
        R.analyse(f)
        laws(P, R, f, kind, ai)
    ranking(P, R, comps)
    sorts(P, R, comps)
    terms(P, R, comps)
    R.assumption("Values compared are not NaN, and differences of positions, document numbers and offsets (all non-negative int) do not overflow.")
    R.assumption("The hits of one search carry the same number, kinds and directions of sort values (%s)." % ", ".join(sorted(UNIFORM)))
    R.assumption("strcmp, strcoll and the per-kind compare operations called through a pointer are consistent three-way comparisons (the latter are checked themselves).")

# ---------------------------------------------------------------- which functions
def comparators(P):
    """(function, kind, (index of first element, of second)) -> list of uses"""
    out = {}
    def add(t, kind, ai, site):
        if len(t.args) > max(ai): out.setdefault((t.qname, kind, ai), []).append(site)
    for q in sorted(P.slots.get("FrtPriorityQueue.less_than_i", ())): add(P.funcs[q], "lt", (0, 1), None)
    for q in sorted(P.slots.get("FrtSortField.compare", ())): add(P.funcs[q], "cmp", (1, 2), None)
    for q, f in sorted(P.funcs.items()):
        if f.mod not in P.core_mods: continue
        for c in P.calls[q]:
            if c.extra != "direct": continue
            if c.callee == "qsort" and len(c.ops) == 4:
                for t in P._fnvals(f, c.ops[3]): add(t, "cmp", (0, 1), c)
            elif c.callee == "frt_pq_new" and len(c.ops) == 3:
                for t in P._fnvals(f, c.ops[1]): add(t, "lt", (0, 1), c)
            else:
                t = P.lookup(f.mod, c.callee)
                if t is None or t.ret not in ("i1", "i32", "i8"): continue
                hs = tuple(k for k, o in enumerate(c.ops) if isinstance(o, str) and from_heap(P, f, o))
                # an element of the heap against another of the same type, deciding a branch
                if hs and len(hs) <= 2 and len(c.ops) >= 2 and c.res and decides(f, c.res):
                    ai = pair_of(P, f, c, t, hs)
                    if ai: add(t, "lt", ai, c)
    return out

def from_heap(P, f, v, depth=0):
    d = f.defs.get(v)
    if d is None: return False
    if d.op == "load":
        e = P.expr(f, d.ops[0])
        return e[0] == "index" and e[1][0] == "load" and e[1][1][0] == "field" and e[1][1][2] == "FrtPriorityQueue.heap"
    return False

def pair_of(P, f, c, t, hs):
    n = [k for k, ty in enumerate(t.argtys) if ty == "ptr"]
    if len(hs) == 2: ai = hs
    else:
        rest = [k for k in n if k not in hs]
        # the other operand is a hit being inserted / kept aside: the nearest pointer argument
        near = [k for k in rest if abs(k - hs[0]) == 1 and not heap0(P, f, c.ops[k])]
        if len(near) != 1: return None
        ai = tuple(sorted((hs[0], near[0])))
    if any(heap0(P, f, c.ops[k]) for k in ai): return None
    return ai

def heap0(P, f, v):
    """heap[0]: the queue's own slot, not an element"""
    d = f.defs.get(v)
    if d is None or d.op != "load": return False
    g = f.defs.get(d.ops[0])
    if g is None: return False
    if g.op == "getelementptr": return g.ops[-1] == "0"
    e = P.expr(f, d.ops[0])
    return e[0] == "load" and e[1][0] == "field" and e[1][2] == "FrtPriorityQueue.heap"

def decides(f, v):
    w = [v]; seen = set()
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        for u in f.users(x):
            if u.op in ("br", "switch", "select"): return True
            if u.op in ("icmp", "zext", "sext", "trunc", "phi", "xor", "and", "or") and u.res: w.append(u.res)
    return False

# ---------------------------------------------------------------- running one
def arglist(P, f, ai, a, b):
    args = [("arg", "%s#%d" % (f.qname, k)) for k in range(len(f.args))]
    args[ai[0]] = ("E", a); args[ai[1]] = ("E", b)
    return args

def outcome(ev, f, kind, args):
    r = ev.call(f, args)
    if r is None: raise Unsupported("no result")
    if isinstance(r, int): s = (r > 0) - (r < 0)
    else: s = ev.sign(r, 0)
    return (s != 0) if kind == "lt" else s

def laws(P, R, f, kind, ai):
    where = "%s:%s" % (f.file, f.line)
    n = 0; bad = None; selfc = mixed = trunc = None; ranks = set()
    pairs = [(a, b) for a in range(3) for b in range(3) if a != b]
    loops = 1
    def body(make):
        return {(a, b): outcome(make(), f, kind, arglist(P, f, ai, a, b)) for a, b in pairs}
    try:
        for env, r, evs in enumerate_(P, 3, body, loops=loops, uniform=dict(UNIFORM, **{"FrtFieldDoc.size": (0, 1)})):
            n += 1
            for e in evs:
                selfc = selfc or (e.self_cmp and e.self_cmp[0]); mixed = mixed or (e.mixed and e.mixed[0]); trunc = trunc or (e.truncated and e.truncated[0])
                ranks |= e.ranks
            if bad: continue
            w = wrong(kind, r)
            if w: bad = (w, env)
        if kind == "lt":
            # more of a list of criteria, two elements at a time
            def body2(make): return {(a, b): outcome(make(), f, kind, arglist(P, f, ai, a, b)) for a, b in ((0, 1), (1, 0))}
            for env, r, evs in enumerate_(P, 2, body2, loops=2, uniform=UNIFORM):
                n += 1
                if not bad and r[(0, 1)] and r[(1, 0)]: bad = ("both elements can be found less than the other", env)
    except Unsupported as e:
        R.assumption("%s() is not evaluated (%s)." % (f.qname, e)); return
    R.check("R1", not bad, where, f.qname, "%d rankings in %d part(s): %s" % (n, len(ranks), ", ".join(sorted(show(k) for k in ranks))),
            bad and "is not a consistent order: %s (when %s)" % (bad[0], tell(bad[1])), key="R1|%s" % f.qname)
    R.check("R2", not (selfc or mixed or trunc), where, f.qname, "same part of both elements",
            "compares '%s' of one element with itself" % show(selfc) if selfc else
            "compares '%s' of one element with '%s' of the other" % (show(mixed[0]), show(mixed[1])) if mixed else
            "uses the sign of a difference after cutting it short" if trunc else "", key="R2|%s" % f.qname)

def wrong(kind, r):
    for a, b in itertools.combinations(range(3), 2):
        if kind == "lt":
            if r[(a, b)] and r[(b, a)]: return "both elements can be found less than the other"
        elif r[(a, b)] != -r[(b, a)]: return "swapping the elements does not reverse the result"
    for a, b, c in itertools.permutations(range(3)):
        if kind == "lt":
            if r[(a, b)] and r[(b, c)] and not r[(a, c)]: return "a < b and b < c but not a < c"
            t = lambda x, y: not r[(x, y)] and not r[(y, x)]
            if t(a, b) and t(b, c) and not t(a, c): return "a ties with b and b with c, but a and c are ordered"
        else:
            if r[(a, b)] < 0 and r[(b, c)] <= 0 and r[(a, c)] >= 0: return "a < b and b <= c but not a < c"
            if r[(a, b)] == 0 and r[(b, c)] == 0 and r[(a, c)] != 0: return "a = b and b = c but not a = c"
    return None

def tell(env):
    out = []
    for k, v in env.items():
        if k[0] == "rank": out.append("%s ranks %s" % (show(k[1]), "/".join(map(str, v))))
        elif k[0] == "un" and isinstance(k[1], tuple): out.append("%s of element %s vs %s: %d" % (show(k[1]), "".join(map(str, order.elems(k[1]))), k[2], v))
    return "; ".join(out[:6])

# ---------------------------------------------------------------- hits
def is_doc(k): return k[0] == "ld" and k[2][0] == "fld" and k[2][2] == "FrtHit.doc"

def inserts(P, q):
    """does the function that made the queue hand its elements to the generic queue operations?"""
    f = P.funcs[q]
    for i in f.insts():
        for o in list(i.ops) + ([("@" + i.callee)] if i.op == "call" and i.extra == "direct" else []):
            if isinstance(o, str) and o in ("@frt_pq_insert", "@frt_pq_push"): return True
    return False

def rankers(P, comps):
    for (q, kind, ai), use in sorted(comps.items()):
        if kind != "lt": continue
        for c in use:
            if c is None: continue
            if c.callee == "frt_pq_new" and not inserts(P, c.fn.qname): continue
            yield P.funcs[q], ai; break

def ranking(P, R, comps):
    for f, ai in rankers(P, comps):
        where = "%s:%s" % (f.file, f.line)
        def body(make):
            e = make(); return outcome(e, f, "lt", arglist(P, f, ai, 0, 1)), outcome(make(), f, "lt", arglist(P, f, ai, 1, 0))
        doc = score = False; bad = None; n = 0
        try:
            for env, (r1, r2), evs in enumerate_(P, 2, body, loops=2, uniform=UNIFORM):
                rk = {k[1]: v for k, v in env.items() if k[0] == "rank"}
                if not any(fl.startswith(("FrtHit.", "FrtFieldDoc.", "FrtComparable.")) or fl.endswith(".compare") for k in rk for fl in fields(k) + [k[1] if k[0] == "cmpcall" else ""]): continue
                others = [k for k in rk if not is_doc(k)]
                if all(rk[k][0] == rk[k][1] for k in others) and not any(k[0] == "un" and order.elems(k[1]) for k in env):
                    d = [k for k in rk if is_doc(k)]
                    n += 1; doc = True
                    if sort_by_doc(env): continue
                    if not d: bad = bad or "hits that tie are not ordered by document number"
                    elif (r1, r2) != (rk[d[0]][0] > rk[d[0]][1], rk[d[0]][1] > rk[d[0]][0]):
                        bad = bad or "of two hits that tie, the one with the greater document number does not rank lower"
                sc = [k for k in rk if fields(k)[-1:] == ["FrtHit.score"]]
                if sc and rk[sc[0]][0] != rk[sc[0]][1]:
                    n += 1
                    if (r1, r2) != (rk[sc[0]][0] < rk[sc[0]][1], rk[sc[0]][1] < rk[sc[0]][0]):
                        bad = bad or "a hit with a lower score does not rank lower"
        except Unsupported: continue
        if n: R.check("R3", not bad, where, f.qname, "%d rankings" % n, bad, key="R3|%s" % f.qname)

def sort_by_doc(env):
    """the sort itself is by document number (its direction is judged by R4)"""
    return any(k[0] == "uni" and "FrtComparable.type" in fields(k[1]) and v == DOC for k, v in env.items())

# ---------------------------------------------------------------- sort kinds
SCORE, DOC = 0, 1
def enum_names(P, prefix):
    """values of the sort kinds"""
    out = {}
    for m in P.core_mods:
        for v in m.meta.values():
            mm = re.match(r'!DIEnumerator\(name: "(%s\w+)", value: (-?\d+)' % prefix, v)
            if mm: out[int(mm.group(2))] = mm.group(1)[len(prefix):]
    return out

def kinds(P, names):
    """(kind, compare, get_val) triples: from initialisers, constructors and the code that settles an automatic sort"""
    out = {}
    for m in P.core_mods:
        for g, txt in m.globals.items():
            mm = re.search(r'(?:global|constant) %struct\.FrtSortField \{(.*)\}', txt)
            if not mm: continue
            import ir
            d = dict(zip([x[0].split("|")[0] for x in m.fields["struct.FrtSortField"]], [x.strip() for x in ir.split_top(mm.group(1))]))
            t, c, v = d.get("type"), d.get("compare"), d.get("get_val")
            mt = re.match(r'i32 (\d+)', t or "")
            if mt and c and v and "@" in c and "@" in v:
                add(P, out, m, int(mt.group(1)), c.split("@")[1], v.split("@")[1], g)
    for q, f in sorted(P.funcs.items()):
        if f.mod not in P.core_mods: continue
        for bn in f.order:
            st = {}
            for i in f.blocks[bn].insts:
                if i.op == "store":
                    fa = P.field_addr(f, i.ops[1])
                    if fa in ("FrtSortField.type", "FrtSortField.compare", "FrtSortField.get_val"): st[fa.split(".")[1]] = i.ops[0]
                elif i.op == "call" and i.extra == "direct":
                    t = P.lookup(f.mod, i.callee)
                    if t is None or not i.ops: continue
                    roles = param_roles(P, t)
                    if set(roles) >= {"type", "compare", "get_val"}:
                        a = {r: i.ops[k] for r, k in roles.items() if k < len(i.ops)}
                        take(P, out, f, a)
            if len(st) == 3: take(P, out, f, st)
    return out

def take(P, out, f, a):
    if not all(isinstance(a.get(k), str) for k in ("type", "compare", "get_val")): return
    if re.match(r'^\d+$', a["type"]) and a["compare"].startswith("@") and a["get_val"].startswith("@"):
        add(P, out, f.mod, int(a["type"]), a["compare"][1:], a["get_val"][1:], f.qname)

def add(P, out, m, ty, c, v, site):
    cf, vf = P.lookup(m, c), P.lookup(m, v)
    if cf and vf: out.setdefault((ty, cf.qname, vf.qname), []).append(site)

def param_roles(P, t):
    r = {}
    for i in t.insts():
        if i.op == "store":
            fa = P.field_addr(t, i.ops[1])
            if fa in ("FrtSortField.type", "FrtSortField.compare", "FrtSortField.get_val") and i.ops[0] in t.args: r[fa.split(".")[1]] = t.args.index(i.ops[0])
    return r

def sorts(P, R, comps):
    names = enum_names(P, "FRT_SORT_TYPE_")
    if not names: return
    one = many = None
    for f, ai in rankers(P, comps):
        # the ranking that asks the kind's own compare, and the one that compares carried values
        def has(fn, pred, depth=0, seen=None):
            seen = seen if seen is not None else set()
            if fn.qname in seen or depth > 3: return False
            seen.add(fn.qname)
            for i in fn.insts():
                if pred(fn, i): return True
                if i.op == "call" and i.extra == "direct":
                    t = P.lookup(fn.mod, i.callee)
                    if t is not None and has(t, pred, depth + 1, seen): return True
            return False
        if has(f, lambda g, i: i.op == "call" and i.extra != "direct" and (P.slot(i) or "").endswith(".compare")): one = (f, ai)
        elif has(f, lambda g, i: i.op == "load" and (P.field_addr(g, i.ops[0]) or "").startswith("FrtComparable.")): many = (f, ai)
    if not one or not many: return
    f1, a1 = one; f2, a2 = many
    where = "%s:%s" % (f2.file, f2.line)
    for (ty, cq, vq), sites in sorted(kinds(P, names).items()):
        name = names.get(ty, str(ty))
        cf, vf = P.funcs[cq], P.funcs[vq]
        R.analyse(cf, vf)
        try:
            k1, t1 = table(P, f1, a1, rev_of_one, bind=cf)
            k2, t2 = table(P, f2, a2, lambda k: rev_of_many(k, ty), bind=None)
            stored = carried(P, vf)
            val1 = compared(P, cf)
        except Unsupported as e:
            R.assumption("sort kind %s is not compared (%s)." % (name, e)); continue
        w = "%s:%s" % (cf.file, cf.line)
        if stored is None or not k1:
            continue
        if ty != DOC:
            ok = val1 == {stored[0]}
            R.check("R4", ok, w, cq, "%s: carries what it compares" % name,
                    "for sort kind %s one index compares '%s' but hands on '%s' for merging with others" % (name, ", ".join(map(show, val1)) or "nothing", show(stored[0])),
                    key="R4v|%s|%s" % (cq, vq))
            ty2 = {strip_cmp(k)[1] for k in k2 if not is_doc(k) and strip_cmp(k)[0] == "ld"}
            R.check("R4", ty2 == {stored[1]}, where, f2.qname, "%s: read as it was stored" % name,
                    "for sort kind %s the value is stored as %s and compared as %s" % (name, stored[1], ", ".join(sorted(ty2)) or "nothing"), key="R4t|%s|%s" % (f2.qname, name))
        n1, n2 = {k[1] for k in k1 if k[0] == "cmpcall"}, {k[1] for k in k2 if k[0] == "cmpcall"}
        R.check("R4", n1 == n2, where, f2.qname, "%s: same comparison" % name,
                "for sort kind %s one index compares by %s and several by %s" % (name, "/".join(n1) or "value", "/".join(n2) or "value"), key="R4c|%s|%s" % (f2.qname, name))
        diff = [k for k in t1 if k in t2 and t1[k] != t2[k]] or ([None] if set(t1) != set(t2) else [])
        R.check("R4", not diff, where, f2.qname, "%s: %d rankings agree" % (name, len(t1)),
                diff and "for sort kind %s%s hits are ordered one way within an index and another way across indexes" %
                (name, "" if not diff[0] else " (reversed)" if diff[0][0] else " (not reversed)"), key="R4|%s|%s" % (f2.qname, name))

def strip_cmp(k): return k[3] if k[0] == "cmpcall" else k

def rev_of_one(k):
    fl = fields(k)
    return "rev" if fl and fl[-1].endswith(".reverse") else None
def rev_of_many(k, ty):
    fl = fields(k)
    if fl and fl[-1] == "FrtComparable.reverse": return "rev"
    if fl and fl[-1] == "FrtComparable.type": return ty
    return None

def table(P, f, ai, pinf, bind):
    """{(reversed, value rank, document rank, nulls): outcome} for a sort by this one criterion"""
    keys = set(); tab = {}
    b = AnySuffix(bind) if bind else None
    for rev in (0, 1):
        def pin(k):
            p = pinf(k)
            if p == "rev": return rev
            if p is not None: return p
            fl = fields(k)
            if fl and (fl[-1] == "FrtFieldDoc.size" or re.search(r'\b\w*cnt$|\.size$', fl[-1])): return 1
            return None
        def body(make): return outcome(make(), f, "lt", arglist(P, f, ai, 0, 1))
        for env, r, evs in enumerate_(P, 2, body, loops=2, uniform=UNIFORM, bind=b, pin=pin):
            v = d = None; nulls = []
            for k, x in env.items():
                if k[0] == "rank":
                    keys.add(k[1])
                    o = (x[0] > x[1]) - (x[0] < x[1])
                    if is_doc(k[1]): d = o
                    else: v = o
                elif k[0] == "un" and k[2] == 0: nulls.append((min(order.elems(k[1]), default=-1), x != 0))
                else: raise Unsupported("depends on more than its value")
            tab.setdefault((rev, v, d, tuple(sorted(set(nulls)))), r)
    return keys, expand(tab)

class AnySuffix(dict):
    def __init__(self, t): self.t = t
    def get(self, k, d=None): return self.t if isinstance(k, str) and k.endswith(".compare") else d

def expand(tab):
    """fill in what an outcome did not depend on"""
    out = {}
    anyv = any(k[1] is not None for k in tab)
    anyn = any(k[3] for k in tab)
    for (rev, v, d, nulls), r in tab.items():
        vs = [v] if v is not None or not anyv else [-1, 0, 1]
        ds = [d] if d is not None else [-1, 0, 1]
        if not anyn: ns = [()]
        else:
            n = dict(nulls)
            ns = [tuple(x) for x in itertools.product(*[[(e, n[e])] if e in n else [(e, False), (e, True)] for e in (0, 1)])]
        for a in vs:
            for b in ds:
                for c in ns:
                    cn = dict(c)
                    # strings that are absent do not rank
                    aa = a if not anyn or all(cn.values()) else None
                    out[(rev, aa, b, c)] = r
    return out

def carried(P, vf):
    """what a kind's get_val stores in the record: (canonical value, its type)"""
    if len(vf.args) != 3: return None
    import order as o
    res = []
    def body(make):
        e = make(); e.call(vf, [("arg", "index"), ("E", 0), ("arg", "out")]); return dict(e.mem)
    for env, mem, evs in enumerate_(P, 2, body, loops=1):
        for p, v in mem.items():
            if isinstance(p, tuple) and "FrtComparable.val" in fields(p) and isinstance(v, tuple): res.append(v)
    if not res: return None
    ty = None
    for i in vf.insts():
        if i.op == "store" and "FrtComparable.val" in (P.field_addr(vf, i.ops[1]) or ""): ty = i.ty
    # the compare's first parameter is the same index
    return canon(res[0]), ty

def compared(P, cf):
    def body(make): return outcome(make(), cf, "cmp", [("arg", "index"), ("E", 0), ("E", 1)])
    out = set()
    for env, r, evs in enumerate_(P, 2, body, loops=1): out |= {strip_cmp(k[1]) for k in env if k[0] == "rank"}
    return out

# ---------------------------------------------------------------- terms
def terms(P, R, comps):
    for (q, kind, ai), use in sorted(comps.items()):
        f = P.funcs[q]
        def body(make): return outcome(make(), f, kind, arglist(P, f, ai, 0, 1))
        try: res = list(enumerate_(P, 2, body, loops=2, uniform=UNIFORM))
        except Unsupported: continue
        strs = {k[1] for env, r, e in res for k in env if k[0] == "rank" and k[1][0] == "cmpcall" and k[1][1] == "strcmp"}
        if len(strs) != 1: continue
        s = next(iter(strs))
        seg = kind == "lt" and of_stream(P, s)
        if not seg and kind != "cmp": continue
        bad = None; n = 0
        for env, r, e in res:
            rk = {k[1]: v for k, v in env.items() if k[0] == "rank"}
            if s not in rk: continue
            others = [v for k, v in rk.items() if k != s]
            n += 1
            lt = r if kind == "lt" else r < 0
            if rk[s][0] != rk[s][1]:
                if any(v[0] != v[1] for v in others): continue
                if lt != (rk[s][0] < rk[s][1]): bad = bad or "terms are not put in ascending byte order"
            elif seg:
                if not others: bad = bad or "the same term of two segments is taken in no particular order"
                elif lt != (others[0][0] < others[0][1]): bad = bad or "the same term of two segments is not taken in the order of the segments"
        R.check("R5", not bad, "%s:%s" % (f.file, f.line), q, "%d rankings" % n, bad, key="R5|%s" % q)

def of_stream(P, s):
    """the element is one of several term streams being merged"""
    fl = fields(s)
    if not fl: return False
    d = P.di_struct(fl[-1].split(".")[0])
    return bool(d) and any("TermEnum" in t for n, t in d)
