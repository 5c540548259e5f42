"""C12: an index or search made of several parts numbers documents and fields consistently."""
import re
from sym import Sym, add, entails
INLINE = True

# composite: offsets field, parts field, number-of-parts fields
COMP = {"FrtMultiReader": ("starts", "sub_readers"), "FrtMultiSearcher": ("starts", "searchers")}
ENUM = "MultiTermDocEnum"
CNT = {"FrtMultiReader.r_cnt", "FrtMultiSearcher.s_cnt", ENUM + ".ir_cnt", "MultiTermEnum.size"}
DOC = {"FrtIndexReader.get_doc": 1, "FrtIndexReader.get_lazy_doc": 1, "FrtIndexReader.term_vector": 1, "FrtIndexReader.term_vectors": 1,
       "FrtIndexReader.is_deleted": 1, "FrtIndexReader.delete_doc_i": 1, "FrtIndexReader.set_norm_i": 1,
       "FrtSearcher.get_doc": 1, "FrtSearcher.get_lazy_doc": 1, "FrtSearcher.explain": 2, "FrtSearcher.explain_w": 2,
       "FrtSearcher.get_term_vector": 1, "FrtSearcher.search_unscored": 4, "FrtSearcher.search_unscored_w": 4}
FLD = {"FrtIndexReader.get_norms": 1, "FrtIndexReader.get_norms_into": 1, "FrtIndexReader.terms": 1, "FrtIndexReader.terms_from": 1,
       "FrtIndexReader.doc_freq": 1, "FrtIndexReader.set_norm_i": 2, "FrtTermEnum.set_field": 1}
TOTAL = {"FrtIndexReader.num_docs", "FrtIndexReader.doc_freq", "FrtSearcher.doc_freq", "FrtIndexReader.max_doc", "FrtSearcher.max_doc"}

def run(P, R):
    R.rule("R1", "an operation on one part is given the document number minus that same part's offset", floor=6)
    R.rule("R2", "a document number that comes back from a part has that same part's offset added, exactly once", floor=4)
    R.rule("R3", "an operation on one part is given that part's own field number, and only if it has the field; per-document data of a part "
                 "goes to the part's own range, and a range whose part lacks the field is not left undefined", floor=3)
    R.rule("R4", "a composite operation visits every part; offsets are the running total of the parts' sizes and totals add up every part", floor=8)
    R.rule("R5", "an enumerator over parts changes its offset together with its current part, passes over a part only if the target lies "
                 "beyond it, and finding nothing leaves it empty", floor=3)
    R.rule("R6", "the part a document belongs to is searched for with bounds that only ever exclude parts the document cannot be in", floor=1)
    for q in sorted(P.funcs):
        f = P.funcs[q]
        if not any(rel(P, f, i) for i in f.insts()): continue
        S = Sym(P, f); R.analyse(f)
        parts(P, R, f, S); results(P, R, f, S); starts(P, R, f, S); enums(P, R, f, S); search(P, R, f, S); terms(P, R, f, S); build_map(P, R, f, S)
    seeks(P, R)
    R.assumption("Loads of the same access path in one operation denote the same value (composites do not change while one of their operations runs).")
    R.assumption("Loops over parts by pointer arithmetic, and ways of locating a part other than bisection, are not judged.")

def rel(P, f, i):
    if i.op != "getelementptr": return False
    return any(n in RELF for n in P.field_of_gep(f, i))
RELF = {"%s.%s" % (c, x) for c, v in COMP.items() for x in v} | {ENUM + "." + x for x in ("irs_tde", "curr_tde", "base", "starts", "ptr")} | {"MultiTermEnum.tews", "MultiTermEnum.tis", "MultiTermEnum.ti_indexes", "FrtMultiReader.field_num_map"}

def where(f, i): return "%s:%s" % (f.file, i.line)

# ---------------------------------------------------------------- recognising parts and offsets
def part(k, param=None):
    """key of a part -> (composite object key, 'Struct', index lin) or None"""
    if k[0] == "ld" and k[1][0] == "at" and k[1][1][0] == "ld" and k[1][1][1][0] == "fld":
        fld = k[1][1][1][2]
        for c, (o, p) in COMP.items():
            if fld == "%s.%s" % (c, p): return k[1][1][1][1], c, k[1][2]
        if fld == ENUM + ".irs_tde": return k[1][1][1][1], ENUM, k[1][2]
    if k[0] == "ld" and k[1][0] == "fld" and k[1][2] == "TermEnumWrapper.te" and k[1][1][0] == "at" and k[1][1][1][0] == "ld" \
       and k[1][1][1][1][0] == "fld" and k[1][1][1][1][2] == "MultiTermEnum.tews": return k[1][1][1][1][1], "MultiTermEnum", k[1][1][2]
    if k[0] == "ld" and k[1][0] == "ld" and k[1][1][0] == "fld":      # element 0
        for c, (o, p) in COMP.items():
            if k[1][1][2] == "%s.%s" % (c, p): return k[1][1][1], c, ((), 0)
    if k[0] == "ld" and k[1][0] == "fld" and k[1][2] == ENUM + ".curr_tde": return k[1][1], ENUM, "curr"
    return None

def offset(a):
    """atom that is a part's offset -> (composite object, struct, index) or None"""
    if a[0] == "ld" and a[1][0] == "at" and a[1][1][0] == "ld" and a[1][1][1][0] == "fld" and a[1][1][1][2].endswith(".starts"):
        return a[1][1][1][1], a[1][1][1][2].split(".")[0], a[1][2]
    if a[0] == "ld" and a[1][0] == "ld" and a[1][1][0] == "fld" and a[1][1][2].endswith(".starts"):
        return a[1][1][1], a[1][1][2].split(".")[0], ((), 0)
    if a[0] == "ld" and a[1][0] == "fld" and a[1][2] == ENUM + ".base": return a[1][1], ENUM, "curr"
    return None

def same(p, o):
    if p[0] != o[0]: return False
    if p[2] == o[2]: return True
    ptr = ((("ld", ("fld", p[0], ENUM + ".ptr")), 1),)
    if p[2] == "curr" and o[2] == (ptr, 0): return True
    return False

def doc_arg(P, c):
    """(slot-like name, position) of the document number a call on a part takes, also through an exported wrapper"""
    s = P.slot(c) if c.extra != "direct" else None
    if s in DOC: return s, DOC[s]
    if c.extra == "direct":
        for t in P.targets(c):
            for d in P.calls[t.qname]:
                x = P.slot(d) if d.extra != "direct" else None
                if x in DOC and DOC[x] < len(d.ops) and d.ops[0] == (t.args[0] if t.args else None) and d.ops[DOC[x]] in t.args:
                    return x, t.args.index(d.ops[DOC[x]])
    return None

def fld_arg(P, c):
    s = P.slot(c) if c.extra != "direct" else None
    if s in FLD: return s, FLD[s]
    if c.extra == "direct":
        for t in P.targets(c):
            for d in P.calls[t.qname]:
                x = P.slot(d) if d.extra != "direct" else None
                if x in FLD and FLD[x] < len(d.ops) and d.ops[0] == (t.args[0] if t.args else None) and d.ops[FLD[x]] in t.args:
                    return x, t.args.index(d.ops[FLD[x]])
    return None

def variants(S, v, depth=0):
    """the values a phi/select of the doc argument may take: [(lin, facts)]"""
    v = S.strip(v); d = S.f.defs.get(v)
    if d is not None and d.op == "phi" and depth < 3 and not any(S.dominates(d.bb.name if hasattr(d.bb, "name") else d.bb, b) for _, b in d.extra):
        out = []
        for o, b in d.extra:
            ef = S.edge_facts(b)
            t = S.f.blocks[b].term
            here = d.bb.name if hasattr(d.bb, "name") else d.bb
            if t.op == "br" and len(t.extra) == 2 and t.extra[0] != t.extra[1]: ef = ef + S.facts(t.ops[0], t.extra[0] == here)
            for l, fs in variants(S, o, depth + 1): out.append((l, fs + ef))
        return out
    if d is not None and d.op == "select" and depth < 3:
        return [(l, fs + S.facts(d.ops[0], True)) for l, fs in variants(S, d.ops[1], depth + 1)] + \
               [(l, fs + S.facts(d.ops[0], False)) for l, fs in variants(S, d.ops[2], depth + 1)]
    return [(S.lin(v), [])]

def parts(P, R, f, S):
    for c in P.calls[f.qname]:
        if not c.ops: continue
        p = part(S.key(c.ops[0]))
        if p is None: continue
        da = doc_arg(P, c)
        if P.slot(c) == "FrtTermDocEnum.skip_to": da = ("FrtTermDocEnum.skip_to", 1)
        if da and da[1] < len(c.ops):
            ok = True; why = ""
            for l, fs in variants(S, c.ops[da[1]]):
                own = [(a, n) for a, n in l[0].items() if offset(a) is None]; offs = [(a, n) for a, n in l[0].items() if offset(a)]
                if not l[0] and l[1] == 0:
                    # a clamped lower bound: 0 only if the number is not beyond the part's offset
                    ok = ok and (not fs or any(any(offset(a) and n == -1 and same(p, offset(a)) for a, n in x[0].items()) and x[1] >= 0 for x in fs))
                    why = "is given 0 where the number may lie inside the part"
                    continue
                good = len(own) == 1 and own[0][1] == 1 and own[0][0][0] in ("arg", "phi") and len(offs) == 1 and offs[0][1] == -1 and l[1] == 0 and same(p, offset(offs[0][0]))
                if not good: ok = False; why = "is given a document number that is not the caller's minus this part's offset"
            R.check("R1", ok, where(f, c), f.qname, "%s on a part" % da[0], "%s on a part %s" % (da[0], why), key="R1|%s|%s" % (f.qname, da[0]))
        fa = fld_arg(P, c)
        if fa and fa[1] < len(c.ops) and p[1] in ("FrtMultiReader", "MultiTermEnum"): field_map(P, R, f, S, c, p, fa)
        if P.slot(c) == "FrtIndexReader.get_norms_into": norms(P, R, f, S, c, p)
        if p[2] != "curr": covers(P, R, f, S, c, p)
        if P.slot(c) in TOTAL: totals(P, R, f, S, c)

def mapped(P, S, v, p):
    """the field number of part p: ('map', call/..., ) or None"""
    v = S.strip(v); d = S.f.defs.get(v)
    if d is None: return None
    if d.op == "call" and d.extra == "direct":
        for t in P.targets(d):
            if any(n == "FrtMultiReader.field_num_map" for i in t.insts() if i.op == "getelementptr" for n in P.field_of_gep(t, i)):
                idx = [S.freeze(S.lin(o)) for o in d.ops[1:]]
                return p[2] in idx and S.key(d.ops[0]) == p[0]
    if d.op == "phi": return any(mapped(P, S, o, p) for o in d.ops)
    if d.op == "select": return any(mapped(P, S, o, p) for o in d.ops[1:])
    if d.op == "load":
        k = S.key(v)
        if "field_num_map" in repr(k):
            a = k[1]
            return a[0] == "at" and a[1][0] == "ld" and a[1][1][0] == "at" and a[1][1][2] == p[2]
    return None

def field_map(P, R, f, S, c, p, fa):
    v = c.ops[fa[1]]
    m = mapped(P, S, v, p)
    if m is None:
        k = S.key(v)
        if k == ("k", 0): return                      # a placeholder enumerator: any field of the part
        R.check("R3", False, where(f, c), f.qname, "", "%s on a part is given a field number that was not mapped for that part" % fa[0], key="R3|%s|%s" % (f.qname, fa[0]))
        return
    nonneg = entails(S.edge_facts(c.bb.name if hasattr(c.bb, "name") else c.bb), ({S.key(v): -1}, 0)) if S.key(v)[0] != "k" else True
    if S.key(v)[0] != "k" and entails(S.edge_facts(c.bb.name if hasattr(c.bb, "name") else c.bb), ({S.key(v): -1}, 1)):
        R.check("R3", False, where(f, c), f.qname, "", "%s is never called for a part whose field has number 0" % fa[0], key="R3|%s|%s|zero" % (f.qname, fa[0]))
        return
    R.check("R3", bool(m) and nonneg, where(f, c), f.qname, "%s on a part gets the part's own field number" % fa[0],
            "%s on a part is given another part's field number" % fa[0] if not m else "%s on a part is called although the part may lack the field" % fa[0],
            key="R3|%s|%s" % (f.qname, fa[0]))

def bb(i): return i.bb.name if hasattr(i.bb, "name") else i.bb

def norms(P, R, f, S, c, p):
    k = S.key(c.ops[2])
    o = None
    base = k
    if k[0] == "at":
        atoms = dict(k[2][0]); base = k[1]
        if len(atoms) == 1 and k[2][1] == 0 and list(atoms.values()) == [1]: o = offset(next(iter(atoms)))
    R.check("R3", o is not None and same(p, o), where(f, c), f.qname, "a part's norms go to its own range",
            "a part's norms are not written at that part's offset", key="R3|%s|range" % f.qname)
    # parts that are skipped: buffer zeroed where it was allocated, or cleared on the other edge
    d = next((i for i in f.insts() if i.op == "call" and base == ("call", i.uid)), None)
    if d is not None and d.callee in ("frt_ecalloc", "calloc"): R.ok("R3", where(f, c), "%s: the buffer is zeroed when allocated" % f.qname); return
    loops = [(h, b) for h, b in S.loops().items() if bb(c) in b]
    if not loops: return
    h, body = min(loops, key=lambda x: len(x[1]))
    fills = {bb(i) for i in f.insts() if i.op == "call" and i.extra == "direct" and (i.callee or "").startswith(("llvm.memset", "memset"))} | {bb(c)}
    # an iteration that writes nothing
    bad = any(S.reaches(s, {h}, avoid=fills) for s in f.blocks[h].succs if s in body)
    R.check("R3", not bad, where(f, c), f.qname, "every part's range is written", "the range of a part that lacks the field is left as it was", key="R3|%s|gap" % f.qname)

def counter(S, k):
    """loop counter phi of a part index: (phi inst, constant offset, init lin, step) or None"""
    atoms, c = k
    if len(atoms) != 1 or atoms[0][1] != 1 or atoms[0][0][0] != "phi": return None
    d = S.f.defs.get(atoms[0][0][1])
    if d is None or d.op != "phi": return None
    h = bb(d); init, step = None, None
    for o, b in d.extra:
        if S.dominates(h, b):
            l = add(S.lin(o), ({("phi", d.res): 1}, 0), -1)
            if l[0] or (step is not None and step != l[1]): return None
            step = l[1]
        else:
            l = S.lin(o)
            if init is not None and init != l: return None
            init = l
    if init is None or step not in (1, -1): return None
    return d, c, init, step

def is_count(a): return (a[0] == "ld" and a[1][0] == "fld" and a[1][2] in CNT) or a[0] == "arg"

def covers(P, R, f, S, c, p, what=None):
    ct = counter(S, p[2])
    if ct is None: return
    d, off, init, step = ct
    h = bb(d); body = S.loops().get(h)
    if not body or bb(c) not in body: return
    phi = ("phi", d.res)
    first = add(init, ({}, off), 1)
    bad = None
    if step == 1:
        if first[0] or first[1] != 0: bad = "does not start with the first part"
    else:
        cn = [a for a, n in first[0].items() if n == 1 and is_count(a)]
        if len(first[0]) != 1 or not cn: return
        if first[1] != -1: bad = "does not start with the last part"
    # the bound: an exit that depends on the counter and the count only
    bound = False
    for b in body:
        t = f.blocks[b].term
        if t is None or t.op != "br" or len(t.extra) != 2: continue
        outs = [s for s in t.extra if s not in body]
        if len(outs) != 1: continue
        stay = S.facts(t.ops[0], t.extra[0] in body)
        for l in stay:
            ats = set(l[0])
            if phi not in ats or any(not is_count(a) for a in ats - {phi}): continue
            bound = True
            if step == 1:
                if l[0].get(phi) == 1 and len(ats) == 2 and l[1] != 1 + off: bad = bad or "stops before or after the last part"
                if l[0].get(phi) == 1 and len(ats) == 1: bad = bad or "stops at a fixed number of parts"
            else:
                if l[0].get(phi) == -1 and len(ats) == 1 and l[1] + off != 0: bad = bad or "stops before or after the first part"
    for b in body:
        t = f.blocks[b].term
        if t is None or t.op != "br" or len(t.extra) != 2 or any(s not in body for s in t.extra): continue
        l = S.facts(t.ops[0], True) or S.facts(t.ops[0], False)
        if not l or not all(set(x[0]) <= {phi} | {a for a in x[0] if is_count(a) and a[0] != "arg"} for x in l): continue
        r = [S.reaches(x, {bb(c)}, avoid={h}) for x in t.extra]
        if r[0] != r[1]: bad = bad or "leaves a part out by its position"
    if not bound and not bad: return
    R.check("R4", bad is None, where(f, c), f.qname, "visits every part (%s)" % (P.slot(c) or c.callee), "the loop over the parts %s" % bad,
            key="R4|%s|%s" % (f.qname, P.slot(c) or c.callee))

def totals(P, R, f, S, c):
    if not c.res: return
    us = [u for u in f.insts() if c.res in u.ops]
    ok = any(u.op == "add" for u in us)
    if not any(bb(c) in b for b in S.loops().values()): return
    for u in us:
        if u.op != "add": continue
        # accumulates: other operand is a phi this feeds, or a field it is stored back to
        o = [x for x in u.ops if x != c.res][0]
        ok = ok and (S.key(o)[0] in ("phi", "ld"))
        if S.key(o)[0] == "ld":
            ok = ok and any(s.op == "store" and s.ops[0] == u.res and S.key(s.ops[1]) == S.key(o)[1] for s in f.insts())
    R.check("R4", ok, where(f, c), f.qname, "%s of every part is added to the total" % P.slot(c), "%s of a part is not added to the total" % P.slot(c), key="R4|%s|total" % f.qname)

# ---------------------------------------------------------------- results
def results(P, R, f, S):
    for c in P.calls[f.qname]:
        if c.extra == "direct" or not c.ops: continue
        s = P.slot(c); p = part(S.key(c.ops[0]))
        if p is None or not c.res and s not in ("FrtSearcher.search_each", "FrtSearcher.search_each_w"): continue
        if s == "FrtTermDocEnum.doc_num":
            for r in f.insts():
                if r.op != "ret" or not r.ops: continue
                l = S.lin(r.ops[0])
                if ("call", c.uid) not in l[0]: continue
                rest = {a: n for a, n in l[0].items() if a != ("call", c.uid)}
                ok = l[0][("call", c.uid)] == 1 and l[1] == 0 and len(rest) == 1 and all(n == 1 and offset(a) and same(p, offset(a)) for a, n in rest.items())
                R.check("R2", ok, where(f, c), f.qname, "the part's offset is added to its document number", "a part's document number is returned without exactly that part's offset", key="R2|%s|doc" % f.qname)
        elif s == "FrtTermDocEnum.read": filled(P, R, f, S, c, p, 1)
        elif s in ("FrtSearcher.search_unscored", "FrtSearcher.search_unscored_w"): filled(P, R, f, S, c, p, 2)
        elif s in ("FrtSearcher.search", "FrtSearcher.search_w"): hits(P, R, f, S, c, p)
        elif s in ("FrtSearcher.search_each", "FrtSearcher.search_each_w"): callback(P, R, f, S, c, p)

def filled(P, R, f, S, c, p, n):
    """a part stores numbers into an array and returns how many"""
    k = S.key(c.ops[n])
    arr, frm = (k[1], k[2]) if k[0] == "at" else (k, ((), 0))
    sts = []
    for i in f.insts():
        if i.op != "store" or i.ty != "i32": continue
        a = S.key(i.ops[1])
        if a[0] != "at" or a[1] != arr: continue
        sts.append((i, a))
    good = []
    for i, a in sts:
        l = S.lin(i.ops[0])
        offs = {x: m for x, m in l[0].items() if x != ("ld", a)}
        if l[0].get(("ld", a)) == 1 and l[1] == 0 and len(offs) == 1 and all(m == 1 and offset(x) and same(p, offset(x)) for x, m in offs.items()):
            good.append((i, a))
    ok, why = True, ""
    if len(good) != 1 or len(sts) != len(good): ok, why = False, "the numbers a part stored are not shifted by exactly that part's offset"
    else:
        i, a = good[0]
        ct = counter(S, a[2])
        if ct is not None:
            d, off, init, step = ct
            h = bb(d); body = S.loops().get(h, set())
            first = S.freeze(add(init, ({}, off), 1))
            if step == 1 and first != frm: ok, why = False, "shifting does not start at the first number the part stored"
            bound = None
            for b in body:
                t = f.blocks[b].term
                if t is None or t.op != "br" or len(t.extra) != 2: continue
                if len([s for s in t.extra if s not in body]) != 1: continue
                for l in S.facts(t.ops[0], t.extra[0] in body):
                    if l[0].get(("phi", d.res)) == 1: bound = l
            if bound is not None and (bound[0].get(("call", c.uid)) != -1 or bound[1] != 1 + off):
                ok, why = False, "shifting does not end at the last number the part stored"
            # every way on from the call shifts, unless nothing was stored
            if ok and body:
                def none_stored(t):
                    dd = f.defs.get(t.ops[0]) if t.ops else None
                    return dd is not None and dd.op == "icmp" and any(("call", c.uid) in S.lin(o)[0] for o in dd.ops)
                seen = set(); w = [bb(c)]; esc = False
                while w:
                    x = w.pop()
                    if x in seen or x in body: continue
                    seen.add(x)
                    t = f.blocks[x].term
                    if t.op == "ret": esc = True
                    if t.op == "br" and len(t.extra) == 2 and none_stored(t):
                        # the edge that leads to the shifting loop carries on; the other one means "none"
                        e = [s for s in t.extra if S.reaches(s, {h}, avoid={bb(c)})]
                        w += e if e else list(t.extra); continue
                    w += [s for s in f.blocks[x].succs if s != bb(c)]
                if esc: ok, why = False, "numbers a part stored can be returned without being shifted"
            if ok and any(S.dominates(bb(i), bb(x)) for x in ()): pass
    R.check("R2", ok, where(f, c), f.qname, "numbers stored by a part are shifted once, all of them", why, key="R2|%s|filled" % f.qname)

def hits(P, R, f, S, c, p):
    H = "FrtHit.doc"
    td = ("call", c.uid)
    lds = {}
    for i in f.insts():
        if i.op == "load":
            k = S.key(i.res)
            if k[0] == "ld" and td == root(k) and k[1][0] == "at" and k[1][1][0] == "ld" and k[1][1][1][0] == "fld" and k[1][1][1][2].endswith(".hits"): lds[k] = i
    ok, why = bool(lds), "the hits of a part are not taken from its result"
    if not lds: return
    for k, ld in lds.items():
        sts = [i for i in f.insts() if i.op == "store" and S.key(i.ops[1]) == ("fld", k, H)]
        g = []
        for i in sts:
            l = S.lin(i.ops[0]); offs = {x: m for x, m in l[0].items() if x != ("ld", ("fld", k, H))}
            if l[0].get(("ld", ("fld", k, H))) == 1 and l[1] == 0 and len(offs) == 1 and all(m == 1 and offset(x) and same(p, offset(x)) for x, m in offs.items()): g.append(i)
        if len(g) != 1 or len(sts) != 1: ok, why = False, "a hit of a part does not get exactly that part's offset added"; continue
        # dominated by it: every use of the hit in a call
        for u in f.insts():
            if u.op == "call" and any(isinstance(o, str) and S.key(o) == k for o in u.ops):
                if not (S.dominates(bb(g[0]), bb(u)) and (bb(g[0]) != bb(u) or order(f, g[0]) < order(f, u))): ok, why = False, "a hit of a part is used before its document number is shifted"
        ct = counter(S, k[1][2])
        if ct:
            d, off, init, step = ct
            if step == 1 and (add(init, ({}, off), 1) != ({}, 0)): ok, why = False, "the first hit of a part is left out"
            body = S.loops().get(bb(d), set())
            for b in body:
                t = f.blocks[b].term
                if t is None or t.op != "br" or len(t.extra) != 2 or len([s for s in t.extra if s not in body]) != 1: continue
                for l in S.facts(t.ops[0], t.extra[0] in body):
                    if l[0].get(("phi", d.res)) == 1 and (l[1] != 1 + off or len(l[0]) != 2): ok, why = False, "hits of a part are left out"
    R.check("R2", ok, where(f, c), f.qname, "every hit of a part has the part's offset added once", why, key="R2|%s|hits" % f.qname)

def order(f, i):
    return next(n for n, x in enumerate(f.blocks[bb(i)].insts) if x is i)

def root(k):
    while k[0] in ("ld", "at", "fld"): k = k[1]
    return k

def callback(P, R, f, S, c, p):
    """the callback adds an offset it finds in its argument; the offset there is the part's"""
    cb = next((o for o in c.ops if isinstance(o, str) and o.startswith("@")), None)
    ctx = S.key(c.ops[-1])
    if cb is None:
        return
    g = P.lookup(f.mod, cb[1:])
    if g is None: return
    SG = Sym(P, g); ok, why = False, "the callback given to a part does not add an offset"
    fld = None
    for d in P.calls[g.qname]:
        if d.extra == "direct": continue
        for o in d.ops:
            if not isinstance(o, str): continue
            l = SG.lin(o)
            if l[0].get(("arg", 1)) == 1:
                rest = [a for a in l[0] if a != ("arg", 1)]
                if len(rest) == 1 and l[0][rest[0]] == 1 and l[1] == 0 and rest[0][0] == "ld" and rest[0][1][0] == "fld" and rest[0][1][1] == ("arg", 3): fld = rest[0][1][2]
    if fld is None and ctx[0] == "loc":
        # the context may be embedded at its start
        pass
    if fld:
        sts = [i for i in f.insts() if i.op == "store" and S.key(i.ops[1]) == ("fld", ctx, fld)]
        why = "the offset the callback adds is not that part's"
        ok = bool(sts) and all(offset(S.key(i.ops[0])) and same(p, offset(S.key(i.ops[0]))) for i in sts) and \
            any(S.dominates(bb(i), bb(c)) and (bb(i) != bb(c) or order(f, i) < order(f, c)) for i in sts)
        # set anew for every part
        loops = [b for h, b in S.loops().items() if bb(c) in b]
        if ok and loops and not all(bb(i) in b for b in loops for i in sts): ok = False
    R.check("R2", ok, where(f, c), f.qname, "the callback adds the part's offset", why, key="R2|%s|callback" % f.qname)

# ---------------------------------------------------------------- offsets
def starts(P, R, f, S):
    """constructors: the stores that fill the offsets array"""
    arrs = {}
    for i in f.insts():
        if i.op == "store":
            k = S.key(i.ops[1])
            if k[0] == "fld" and k[2] in ("FrtMultiReader.starts", "FrtMultiSearcher.starts"):
                arrs[S.key(i.ops[0])] = k; arrs[("ld", k)] = k
    if not arrs: return
    sizes = [c for c in P.calls[f.qname] if P.slot(c) in ("FrtIndexReader.max_doc", "FrtSearcher.max_doc") and c.res]
    if not sizes and part_array(S, f):
        R.check("R4", False, "%s:%s" % (f.file, f.line), f.qname, "", "offsets are not made from the sizes of the parts", key="R4|%s|starts" % f.qname); return
    if len(sizes) != 1: return
    c = sizes[0]
    rk = S.key(c.ops[0])
    idx = rk[1][2] if rk[0] == "ld" and rk[1][0] == "at" else None
    sts = []
    for i in f.insts():
        if i.op == "store" and i.ty == "i32":
            k = S.key(i.ops[1])
            if k[0] == "at" and k[1] in arrs: sts.append((i, k[2]))
            elif k in arrs: sts.append((i, ((), 0)))
    ok, why = True, ""
    inl = [(i, x) for i, x in sts if any(bb(i) in b and bb(c) in b for b in S.loops().values())]
    if idx is None or not inl: return
    upd = [u for u in f.insts() if u.op == "add" and c.res in u.ops]
    if len(upd) != 1: ok, why = False, "the parts' sizes are not added up"
    else:
        acc = [o for o in upd[0].ops if o != c.res][0]
        ak = S.key(acc)
        for i, x in inl:
            vk = S.key(i.ops[0]); vl = S.lin(i.ops[0])
            if x == idx:
                if vk != ak: ok, why = False, "a part's offset is not the total size of the parts before it"
                elif ak[0] == "ld":
                    ld = f.defs[S.strip(i.ops[0])]
                    st = [s for s in f.insts() if s.op == "store" and S.key(s.ops[1]) == ak[1] and s.ops[0] == upd[0].res]
                    if st and S.dominates(bb(st[0]), bb(ld)) and not (bb(st[0]) == bb(ld) and order(f, ld) < order(f, st[0])):
                        ok, why = False, "a part's offset includes its own size"
            elif x == (idx[0], idx[1] + 1):
                if ("call", c.uid) not in vl[0] and not (vk[0] == "ld" and ak == vk): ok, why = False, "a part's offset is not the total size of the parts before it"
            else: ok, why = False, "an offset is stored for another part than the one whose size was added"
        p = (None, "", idx)
        covers(P, R, f, S, c, p)
        out = [(i, x) for i, x in sts if (i, x) not in inl]
        if not any(x == (idx[0], idx[1] + 1) for i, x in inl) and not out: ok, why = False, "the end of the last part is not recorded"
        for i, x in out:
            if x == ((), 0) and S.key(i.ops[0]) == ("k", 0): continue
            cn = len(x[0]) == 1 and x[1] == 0 and (is_count(x[0][0][0]) or x[0] == idx[0] or x in bounds(f, S, idx))
            if not cn: ok, why = False, "the end of the last part is recorded in the wrong place"
            k = S.key(i.ops[0])
            if not (k == ak or (k[0] == "ld" and ak[0] == "ld" and k[1] == ak[1])): ok, why = False, "the end of the last part is not the total size"
    R.check("R4", ok, where(f, c), f.qname, "offsets are the running total of the parts' sizes", why, key="R4|%s|starts" % f.qname)

def part_array(S, f):
    return any(i.op == "store" and S.key(i.ops[1])[0] == "fld" and S.key(i.ops[1])[2] in ("FrtMultiReader.sub_readers", "FrtMultiSearcher.searchers") for i in f.insts())

def bounds(f, S, idx):
    """the exclusive upper bounds of the loop over the parts"""
    ct = counter(S, idx); out = []
    if ct is None: return out
    d = ct[0]; body = S.loops().get(bb(d), set())
    for b in body:
        t = f.blocks[b].term
        if t is None or t.op != "br" or len(t.extra) != 2 or len([s for s in t.extra if s not in body]) != 1: continue
        for l in S.facts(t.ops[0], t.extra[0] in body):
            if l[0].get(("phi", d.res)) == 1:
                x = add(({}, 0), l, -1); x = add(x, ({("phi", d.res): 1}, 0), 1)
                out.append(S.freeze((x[0], x[1] + 1)))
    return out

# ---------------------------------------------------------------- enumerators over parts
def enums(P, R, f, S):
    for i in f.insts():
        if i.op == "store" and P.field_addr(f, i.ops[1]) == ENUM + ".curr_tde":
            k = S.key(i.ops[1]); v = S.key(i.ops[0])
            if v == ("k", 0): continue
            p = part(v)
            if p is None: continue
            obj = k[1]
            sts = [s for s in f.insts() if s.op == "store" and S.key(s.ops[1]) == ("fld", obj, ENUM + ".base")]
            uses_base = any(x.op == "load" and P.field_addr(g, x.ops[0]) == ENUM + ".base" for g in P.funcs.values() for x in g.insts())
            ok = not uses_base
            for s in sts:
                o = offset(S.key(s.ops[0]))
                if o and o[2] == p[2] and o[0] == p[0] and (S.dominates(bb(s), bb(i)) or S.dominates(bb(i), bb(s))) and \
                   not any(x.op == "store" and S.key(x.ops[1]) == ("fld", obj, ENUM + ".ptr") and between(f, S, s, x, i) for x in f.insts()): ok = True
            R.check("R5", ok, where(f, i), f.qname, "offset and current part change together", "the current part changes without its offset being set", key="R5|%s|base" % f.qname)
    # passing over a part
    for c in P.calls[f.qname]:
        s = P.slot(c) if c.extra != "direct" else None
        if s not in ("FrtTermDocEnum.skip_to", "FrtSearcher.search_unscored_w", "FrtSearcher.search_unscored") or not c.ops: continue
        p = part(S.key(c.ops[0]))
        if p is None: continue
        n = 1 if s.endswith("skip_to") else 4
        loops = [(h, b) for h, b in S.loops().items() if bb(c) in b]
        if not loops: continue
        h, body = min(loops, key=lambda x: len(x[1]))
        nxt = None
        if p[2] == "curr": nxt = ((("ld", ("fld", p[0], ENUM + ".ptr")), 1),), 1
        else: nxt = (p[2][0], p[2][1] + 1)
        for b in body:
            t = f.blocks[b].term
            if t.op != "br" or len(t.extra) != 2 or t.extra[0] == t.extra[1]: continue
            r = [S.reaches(x, {bb(c)}, avoid={h}) for x in t.extra]
            if r[0] == r[1] or not S.dominates(h, b) or not S.reaches(b, {bb(c)}, avoid={h} if b != h else ()): continue
            skip = t.extra[0] if not r[0] else t.extra[1]
            if skip not in body: continue
            fs = S.facts(t.ops[0], skip == t.extra[0])
            cmpd = [l for l in fs + S.facts(t.ops[0], skip != t.extra[0]) if any(offset(a) for a in l[0])]
            if not cmpd: continue
            # need: starts[part+1] - target <= 0
            ok = False
            for l in fs:
                neg = [a for a, m in l[0].items() if m == -1 and offset(a) is None]; pos = [a for a, m in l[0].items() if m == 1 and offset(a)]
                if len(l[0]) == 2 and len(neg) == 1 and len(pos) == 1 and l[1] >= 0:
                    o = offset(pos[0])
                    if o[2] == nxt: ok = True
            R.check("R5", ok, where(f, t), f.qname, "a part is passed over only if the target lies beyond it",
                    "a part that may hold the target is passed over", key="R5|%s|skip" % f.qname)

def between(f, S, a, x, b):
    if bb(a) == bb(x) == bb(b): return min(order(f, a), order(f, b)) < order(f, x) < max(order(f, a), order(f, b))
    return False

def terms(P, R, f, S):
    """merging the parts' terms: which part an entry came from, and its posting data, belong together"""
    w = []; t = []; df = []
    for i in f.insts():
        if i.op == "store":
            a, v = S.key(i.ops[1]), S.key(i.ops[0])
            if arr(a) == "MultiTermEnum.ti_indexes" and v[0] == "ld" and v[1][0] == "fld" and v[1][2] == "TermEnumWrapper.index": w.append((i, a[2] if a[0] == "at" else ((), 0), v[1][1]))
        if i.op == "call" and (i.callee or "").startswith("llvm.memcpy"):
            a, v = S.key(i.ops[0]), S.key(i.ops[1])
            if arr(a) == "MultiTermEnum.tis" and v[0] == "fld" and v[2].endswith(".curr_ti"):
                x = v[1]
                t.append((i, a[2] if a[0] == "at" else ((), 0), x[1][1] if x[0] == "ld" and x[1][0] == "fld" else None))
    if not w or not t: return
    ok = all(any(x[1] == y[1] and x[2] == y[2] for y in t) for x in w) and all(any(x[1] == y[1] and x[2] == y[2] for y in w) for x in t)
    R.check("R3", ok, where(f, w[0][0]), f.qname, "a term's entry names the part its postings come from",
            "a term's postings are recorded for another part than the one they come from", key="R3|%s|terms" % f.qname)

def arr(a):
    if a[0] == "at": a = a[1]
    return a[1][2] if a[0] == "ld" and a[1][0] == "fld" else None

def build_map(P, R, f, S):
    for i in f.insts():
        if i.op != "store" or i.ty != "i32": continue
        a = S.key(i.ops[1])
        if "FrtMultiReader.field_num_map" not in repr(a) or a[0] != "at": continue
        if not (a[1][0] == "ld" and a[1][1][0] == "at"): continue
        part_i, fld_j = a[1][1][2], a[2]
        ok = False; why = "the field numbers of a part are not looked up in that part by the field's own name"
        for l, fs in variants(S, i.ops[0]):
            if not l[0]:
                if l[1] != -1: ok = False; why = "a field a part lacks is given a number"; break
                continue
            at = next(iter(l[0]))
            if len(l[0]) != 1 or l[1] or not (at[0] == "ld" and at[1][0] == "fld" and at[1][2] == "FrtFieldInfo.number" and at[1][1][0] == "call"): ok = False; break
            c = next(x for x in f.insts() if x.op == "call" and x.uid == at[1][1][1])
            k0, k1 = S.key(c.ops[0]), S.key(c.ops[1])
            own = k0[0] == "ld" and k0[1][0] == "fld" and k0[1][1][0] == "ld" and k0[1][1][1][0] == "at" and k0[1][1][1][2] == part_i
            nm = k1[0] == "ld" and k1[1][0] == "fld" and k1[1][2] == "FrtFieldInfo.name" and k1[1][1][0] == "ld" and k1[1][1][1][0] == "at" and k1[1][1][1][2] == fld_j
            ok = own and nm
        R.check("R3", ok, where(f, i), f.qname, "field numbers of a part are looked up by name in that part", why, key="R3|%s|map" % f.qname)

# ---------------------------------------------------------------- seeking
def seeks(P, R):
    """on every path, seek sets one of the fields that decide whether next() has a document"""
    for q in sorted(P.slots.get("FrtTermDocEnum.seek", ())):
        f = P.funcs[q]
        nx = nexts_of(P, q)
        if not nx: continue
        gate = set()
        for n in nx: gate |= gates(P, P.funcs[n])
        if not gate: continue
        S = Sym(P, f); R.analyse(f)
        wr = {b for b in f.blocks for i in f.blocks[b].insts if writes(P, f, i, gate)}
        bad = [b for b in f.blocks if f.blocks[b].term is not None and f.blocks[b].term.op == "ret" and S.reaches(f.order[0], {b}, avoid=wr)]
        if not wr: continue
        R.check("R5", not bad, "%s:%s" % (f.file, f.line), q, "seeking always repositions the enumerator",
                "a seek can return leaving the enumerator on the previous term", key="R5|%s|seek" % q)

def nexts_of(P, q):
    out = set()
    for g in P.funcs.values():
        st = {}
        for i in g.insts():
            if i.op == "store" and i.ops[0].startswith("@"): st.setdefault(P.field_addr(g, i.ops[1]), set()).add(i.ops[0][1:])
        if any(P.lookup(g.mod, n) is not None and P.lookup(g.mod, n).qname == q for n in st.get("FrtTermDocEnum.seek", ())):
            for n in st.get("FrtTermDocEnum.next", ()):
                t = P.lookup(g.mod, n)
                if t is not None: out.add(t.qname)
    return out

def gates(P, f):
    """fields of the enumerator that the first decision of next() depends on"""
    b = f.order[0]; out = set(); n = 0
    S = Sym(P, f)
    while n < 8:
        n += 1
        t = f.blocks[b].term
        if t.op == "br" and len(t.extra) == 1: b = t.extra[0]; continue
        if t.op == "br":
            d = f.defs.get(t.ops[0])
            if d is not None:
                for o in d.ops: collect(S.key(o), out)
        break
    return out

def collect(k, out):
    if not isinstance(k, tuple): return
    if k and k[0] == "ld" and k[1][0] == "fld" and k[1][1] == ("arg", 0): out.add(k[1][2])
    for x in k:
        if isinstance(x, tuple): collect(x, out)

def writes(P, f, i, gate, depth=0):
    if i.op == "store": return P.field_addr(f, i.ops[1]) in gate
    if i.op == "call" and depth < 3:
        for t in P.targets(i):
            if i.extra == "direct" and must_write(P, t, gate, depth + 1): return True
    return False

def must_write(P, t, gate, depth):
    S = Sym(P, t)
    wr = {b for b in t.blocks for i in t.blocks[b].insts if writes(P, t, i, gate, depth)}
    if not wr: return False
    return not any(t.blocks[b].term is not None and t.blocks[b].term.op == "ret" and S.reaches(t.order[0], {b}, avoid=wr) for b in t.blocks)

# ---------------------------------------------------------------- bisection
def search(P, R, f, S):
    for m in list(f.insts()):
        if m.op not in ("ashr", "lshr", "sdiv", "udiv"): continue
        l = S.lin(m.ops[0])
        ph = [a for a, n in l[0].items() if n == 1 and a[0] == "phi"]
        if len(ph) != 2 or l[1] != 0 or len(l[0]) != 2: continue
        mk = S.key(m.res)
        mid_l = ((mk, 1),)
        # offsets read at mid
        offs = [S.key(i.res) for i in f.insts() if i.op == "load" and offset(S.key(i.res)) and offset(S.key(i.res))[2] == (mid_l, 0)]
        if not offs: continue
        off = offs[0]
        hi = lo = None
        for a in ph:
            d = f.defs[a[1]]
            ins = [S.lin(o) for o, b in d.extra if not S.dominates(bb(d), b)]
            if any(not x[0] and x[1] == 0 for x in ins): lo = d
            else: hi = d
        if lo is None or hi is None: continue
        ok, why = True, ""
        def walk(ph_, o, b, facts, depth=0):
            """values reaching a back edge: (lin, facts)"""
            d = f.defs.get(S.strip(o))
            if d is not None and d.op == "phi" and d is not ph_ and depth < 4 and S.dominates(bb(ph_), bb(d)) and bb(d) != bb(ph_):
                out = []
                for o2, b2 in d.extra:
                    out += walk(ph_, o2, b2, S.edge_facts(b2) + edge(f, S, b2, bb(d)), depth + 1)
                return out
            return [(S.lin(o), facts)]
        n_ = None
        for ph_, kind in ((lo, "lo"), (hi, "hi")):
            for o, b in ph_.extra:
                if not S.dominates(bb(ph_), b):
                    l0 = S.lin(o)
                    if kind == "hi":
                        good = len(l0[0]) == 1 and all(is_count(a) for a in l0[0]) and l0[1] == -1
                        if not good: ok, why = False, "the search does not start with the last part"
                    continue
                for l1, fs in walk(ph_, o, b, S.edge_facts(b) + edge(f, S, b, bb(ph_))):
                    if l1 == ({("phi", ph_.res): 1}, 0): continue
                    if l1[0] != {mk: 1}: ok, why = False, "a bound moves somewhere other than next to the middle"; continue
                    tgt = [x for x in fs if off in x[0] and len(x[0]) == 2]
                    if kind == "lo":     # needs starts[mid] <= n  when lo = mid+1 ; lo = mid also fine
                        if l1[1] > 1: ok, why = False, "the lower bound skips parts"
                        if not any(x[0][off] == 1 and x[1] >= 0 for x in tgt): ok, why = False, "the lower bound passes a part that starts after the document"
                    else:
                        if l1[1] < -1: ok, why = False, "the upper bound skips parts"
                        if not any(x[0][off] == -1 and x[1] >= 1 for x in tgt): ok, why = False, "the upper bound excludes a part that starts at or before the document"
        # what is found
        for u in f.insts():
            if u.op != "phi": continue
            for o, b in u.extra:
                if u in (lo, hi): continue
                l1 = S.lin(o)
                fs = S.edge_facts(b) + edge(f, S, b, bb(u))
                if l1 == ({("phi", hi.res): 1}, 0) and bb(u) not in S.loops().get(bb(hi), ()) :
                    if not any(x[0] == {("phi", hi.res): 1, ("phi", lo.res): -1} and x[1] >= 1 for x in fs): ok, why = False, "the search ends before the bounds have met"
                if l1[0] == {mk: 1} and l1[1] == 0 and bb(u) not in S.loops().get(bb(hi), ()) and is_scan(f, S, u, off) is False and used_as_part(f, S, u):
                    ok, why = False, "of several parts with the same offset the empty ones are not passed over"
        R.check("R6", ok, where(f, m), f.qname, "bisection for the part of a document", why, key="R6|%s" % f.qname)

def edge(f, S, b, to):
    t = f.blocks[b].term
    if t.op == "br" and len(t.extra) == 2 and t.extra[0] != t.extra[1]: return S.facts(t.ops[0], t.extra[0] == to)
    return []

def is_scan(f, S, u, off):
    """u: a phi that starts at the middle and moves on over parts with an equal offset"""
    for o, b in u.extra:
        if S.lin(o) == ({("phi", u.res): 1}, 1): return True
    return False

def used_as_part(f, S, u):
    return True
