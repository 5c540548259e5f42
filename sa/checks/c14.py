"""C14: cached and shared data is changed by nobody but its owner, and dropped when its source changes."""
import collections
import ir
from sym import Sym
INLINE = True

SRC_CALLS = {"frt_filt_get_bv": "a filter's cached bits", "frt_ir_get_norms": "a reader's norms", "frt_field_index_get": "a cached sort index"}
SRC_SLOTS = {"FrtIndexReader.get_norms": "a reader's norms"}
GENERIC = ("frt_h_", "frt_hs_", "frt_ary_", "frt_pq_", "frt_mp_")
FREE = {"free", "realloc", "frt_erealloc"}
COUNTERS = (".ref_cnt",)

def run(P, R):
    R.rule("R1", "data obtained from a cache (filter bits, norms, sort indexes) is never stored to, reordered, freed or passed to an operation "
                 "that changes it (moving its built-in cursor included)", floor=3)
    R.rule("R2", "an operation of a composite reader that changes deletions or norms drops what that reader has cached of them, on every path", floor=2)
    R.rule("R3", "a cache is read, filled and cleared under the same key", floor=2)
    R.rule("R4", "what is put in a cache is not freed or changed afterwards by the function that put it there, and is the value computed for that key", floor=2)
    taint(P, R); invalidate(P, R); keys(P, R); built(P, R)
    R.assumption("Values kept in general-purpose containers are not followed.")

def where(f, i): return "%s:%s" % (f.file, i.line)

class Taint:
    def __init__(self, P):
        self.P = P
        self.val = collections.defaultdict(set)     # (qname, ssa) -> kinds
        self.fld = collections.defaultdict(set)
        self.why = {}
        self.work = []

    def add(self, f, v, kind):
        if v is None or kind in self.val[(f.qname, v)]: return
        self.val[(f.qname, v)].add(kind); self.work.append((f, v, kind))

    def addf(self, fld, kind):
        if kind in self.fld[fld]: return
        self.fld[fld].add(kind)
        for g in self.P.funcs.values():
            for i in g.insts():
                if i.op == "load" and self.P.field_addr(g, i.ops[0]) == fld: self.add(g, i.res, kind)

    def run(self):
        P = self.P
        while self.work:
            f, v, kind = self.work.pop()
            for u in f.users(v):
                if u.op in ir._CASTS or u.op in ("phi", "select", "getelementptr"):
                    if u.op == "getelementptr" and u.ops[0] != v: continue
                    if u.op == "select" and u.ops[0] == v: continue
                    self.add(f, u.res, kind)
                elif u.op == "load" and u.ty == "ptr" and u.ops[0] == v: 
                    fa = P.field_addr(f, v)
                    if fa in ("FrtFieldIndex.klass", "FrtFieldIndex.field"): continue
                    self.add(f, u.res, kind)
                elif u.op == "store" and u.ops[0] == v:
                    fa = P.field_addr(f, u.ops[1])
                    if fa and self.ptr_root(f, u.ops[1]): self.addf(fa, kind)
                elif u.op == "ret":
                    for c in P.callers[f.qname]:
                        if c.res: self.add(c.fn, c.res, kind)
                elif u.op == "call":
                    for n, o in enumerate(u.ops):
                        if o != v: continue
                        for t in P.targets(u):
                            if t.short.startswith(GENERIC): continue
                            if n < len(t.args): self.add(t, t.args[n], kind)
        return self

    def ptr_root(self, f, a): return True

def users_cache(f):
    m = getattr(f, "_um", None)
    return m

def taint(P, R):
    T = Taint(P)
    srcs = []
    for q, cs in P.calls.items():
        for c in cs:
            k = SRC_CALLS.get(c.callee) if c.extra == "direct" else SRC_SLOTS.get(P.slot(c))
            if k and c.res: T.add(c.fn, c.res, k); srcs.append((c, k))
    T.run()
    bad = collections.defaultdict(list)
    for (q, v), kinds in list(T.val.items()):
        f = P.funcs[q]
        for u in f.users(v):
            if u.op == "store" and u.ops[1] == v:
                fa = P.field_addr(f, v)
                if fa and (fa.endswith(COUNTERS) or fa in T.fld): continue
                bad[(q, u)] = (kinds, "stores into")
            elif u.op == "call":
                n = u.callee if u.extra == "direct" else None
                if n in FREE and u.ops[0] == v: bad[(q, u)] = (kinds, "frees")
                elif n and n.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove", "memcpy", "memset", "memmove", "qsort")) and u.ops[0] == v: bad[(q, u)] = (kinds, "overwrites")
    hit = set()
    for (q, u), (kinds, what) in sorted(bad.items(), key=lambda x: (x[0][0], x[0][1].line)):
        f = P.funcs[q]
        for k in kinds:
            hit.add(k)
            R.bad("R1", where(f, u), q, "%s %s" % (what, k), key="R1|%s|%s|%s" % (q, what, k))
    for c, k in srcs:
        R.analyse(c.fn)
        if k not in hit: R.ok("R1", where(c.fn, c), "%s: what it gets (%s) is only read" % (c.fn.qname, k))

def all_paths_do(P, f, S, start, pred):
    """from the instruction `start`, does every path to a return, or the path to it, contain pred?"""
    bbn = lambda i: i.bb.name if hasattr(i.bb, "name") else i.bb
    hits = {bbn(i) for i in f.insts() if pred(i)}
    b = bbn(start)
    if b in hits: return True
    if any(S.dominates(h, b) for h in hits): return True
    if f.blocks[b].term is not None and f.blocks[b].term.op == "ret": return False
    return not any(f.blocks[x].term is not None and f.blocks[x].term.op == "ret" and S.reaches(b, {x}, avoid=hits, start_succ=True) for x in f.blocks)

CHANGES = {"FrtIndexReader.delete_doc_i": ("FrtMultiReader.num_docs_cache",), "FrtIndexReader.undelete_all_i": ("FrtMultiReader.num_docs_cache",),
           "FrtIndexReader.set_norm_i": ("FrtMultiReader.norms_cache",)}

def invalidate(P, R):
    for slot, caches in sorted(CHANGES.items()):
        impl = P.slots.get(slot, set())
        for q in sorted(impl):
            f = P.funcs[q]
            S = Sym(P, f)
            calls = [c for c in P.calls[q] if touches(P, c, slot) and c.ops and S.key(c.ops[0]) != ("arg", 0)]
            if not calls or not any(n == "FrtMultiReader.sub_readers" for i in f.insts() if i.op == "getelementptr" for n in P.field_of_gep(f, i)): continue
            R.analyse(f)
            for cache in caches:
                used = any(i.op == "load" and P.field_addr(g, i.ops[0]) == cache for g in P.funcs.values() if g is not f for i in g.insts())
                if not used: continue
                def pred(i):
                    if i.op == "store" and P.field_addr(f, i.ops[1]) == cache: return S.key(i.ops[0])[0] == "k" and S.key(i.ops[0])[1] < 0
                    if i.op == "call" and i.extra == "direct" and (i.callee or "").startswith(("frt_h_del", "frt_h_rem", "frt_h_clear")): return P.field_load(f, i.ops[0]) == cache
                    return False
                for c in calls:
                    R.check("R2", all_paths_do(P, f, S, c, pred), where(f, c), q, "%s is dropped" % cache.split(".")[1],
                            "changes a part without dropping %s" % cache.split(".")[1], key="R2|%s|%s" % (q, cache))

def touches(P, c, slot):
    if c.extra != "direct": return P.slot(c) == slot
    return any(d.extra != "direct" and P.slot(d) == slot for t in P.targets(c) for d in P.calls[t.qname])

INT = ("frt_h_get_int", "frt_h_set_int", "frt_h_del_int", "frt_h_rem_int", "frt_h_set_safe_int")
PTR = ("frt_h_get", "frt_h_set", "frt_h_del", "frt_h_rem")

def keys(P, R):
    """int-keyed caches of a reader are always accessed with the operation's own field parameter; a get followed by a
    set in one function uses one key"""
    acc = collections.defaultdict(list)
    for f in P.funcs.values():
        S = None
        per = collections.defaultdict(list)
        for c in P.calls[f.qname]:
            if c.extra != "direct" or c.callee not in INT + PTR or len(c.ops) < 2: continue
            S = S or Sym(P, f)
            h = S.key(c.ops[0])
            fld = h[1][2] if h[0] == "ld" and h[1][0] == "fld" else h
            per[fld].append((c, S.key(c.ops[1])))
            if fld in ("FrtMultiReader.norms_cache",): acc[fld].append((f, c, S.key(c.ops[1])))
        for fld, cs in per.items():
            gets = [(c, k) for c, k in cs if c.callee.startswith("frt_h_get")]; sets = [(c, k) for c, k in cs if c.callee.startswith("frt_h_set")]
            for c, k in sets:
                dom = [g for g in gets if S.dominates(g[0].bb.name if hasattr(g[0].bb, "name") else g[0].bb, c.bb.name if hasattr(c.bb, "name") else c.bb)]
                if not dom: continue
                # only look-up-or-fill: the get's result decides whether to set
                ok = any(g[1] == k or derived(P, f, S, k, g[1]) for g in dom)
                R.check("R3", ok, where(f, c), f.qname, "filled under the key that was looked up", "fills a table under another key than the one it looked up",
                        key="R3|%s|%s" % (f.qname, fld if isinstance(fld, str) else "local"))
    for fld, xs in acc.items():
        for f, c, k in xs:
            R.check("R3", k[0] == "arg", where(f, c), f.qname, "%s by the reader's own field number" % c.callee, "%s on a composite's cache with a part's field number" % c.callee,
                    key="R3|%s|%s" % (f.qname, c.callee))

def derived(P, f, S, k, g):
    """k is a copy of, or an object made from, key g"""
    if k[0] == "call":
        c = next(i for i in f.insts() if i.op == "call" and i.uid == k[1])
        if any(isinstance(o, str) and S.key(o) == g for o in c.ops): return True
        if c.callee in ("frt_emalloc", "frt_ecalloc"): return True
    if k[0] in ("phi", "sel"): return True
    if k[0] == "ld":     # a member of the object made for it
        r = k
        while r[0] in ("ld", "fld", "at"): r = r[1]
        return r[0] in ("call", "phi", "loc")
    if g[0] == "loc" or k[0] == "loc": return True
    return False

def built(P, R):
    """co_create(cacheA, cacheB, a, b, free, obj): obj is the value just computed by the owner's operation for this reader"""
    for f in P.funcs.values():
        for c in P.calls[f.qname]:
            if c.extra != "direct" or c.callee != "frt_co_create": continue
            S = Sym(P, f); R.analyse(f)
            o = S.key(c.ops[5])
            d = next((i for i in f.insts() if i.op == "call" and o == ("call", i.uid)), None)
            R.check("R4", d is not None and d.extra != "direct" and S.key(d.ops[0]) == S.key(c.ops[2]) and S.key(d.ops[1]) == S.key(c.ops[3]), where(f, c), f.qname,
                    "the cached object was computed by this filter for this reader", "the cached object was not computed by this filter for this reader", key="R4|%s" % f.qname)
            h = S.key(c.ops[0]); h2 = S.key(c.ops[1])
            ok = h[0] == "ld" and h[1] == ("fld", S.key(c.ops[2]), "FrtFilter.cache") and h2[0] == "ld" and h2[1] == ("fld", S.key(c.ops[3]), "FrtIndexReader.cache")
            R.check("R4", ok, where(f, c), f.qname, "registered with both the filter and the reader", "the cached object is not dropped with the filter or the reader it belongs to", key="R4|%s|tables" % f.qname)
