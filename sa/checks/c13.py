"""C13: equality and hashing of queries, filters, terms and cache keys agree, and equality looks at everything that matters."""
import re, collections
from fmt import sym, fields_in
from irbuild import AnalysisBroken
from prog import NORETURN
INLINE = True
BASES = ("FrtQuery", "FrtFilter")
CASTS = ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze")

def run(P, R):
    R.rule("R1", "everything an object's hash depends on is also looked at, on both sides, by the equality used with it, and what equality compares by content "
                 "is not hashed by address", floor=10)
    R.rule("R2", "every comparison in an equality function is between the same part of the two objects", floor=20)
    R.rule("R3", "a type's own equality is applied to two objects only after they were found to be of the same type", floor=2)
    R.rule("R4", "what was set when the object was made and its operations depend on is looked at by its equality", floor=20)
    done = set()
    kinds = list(ctors(P))
    if not kinds: raise AnalysisBroken("no constructor installs an equality operation")
    for base, ctor, d in kinds:
        h, e = d.get(base + ".hash"), d.get(base + ".eq")
        if h and e: pair(P, R, P.funcs[h], P.funcs[e], done, wrapper(P, base))
        if e: depends(P, R, base, ctor, d)
    for f, c, h, e in container_pairs(P):
        pair(P, R, h, e, done)
        lookup(P, R, f, c, e)
    for hn, en in (("frt_q_hash", "frt_q_eq"), ("frt_filt_hash", "frt_filt_eq"), ("frt_term_hash", "frt_term_eq")):
        if P.has(hn) and P.has(en): pair(P, R, P.fn(hn), P.fn(en), done)
    guarded(P, R)
    R.assumption("Two floating point values that compare equal are taken to hash alike (0.0 and -0.0 do not).")
    R.assumption("Operation pointers of one type are the same for all its objects.")

def wrapper(P, base):
    """what the public equality has compared before it asks the type's own"""
    f = P.fn({"FrtQuery": "frt_q_eq", "FrtFilter": "frt_filt_eq"}[base], False)
    return {} if f is None else uses(P, f)

def ctors(P):
    for q, f in sorted(P.funcs.items()):
        if f.mod not in P.core_mods: continue
        for base in BASES:
            d = {}
            for i in f.insts():
                if i.op != "store": continue
                fa = P.field_addr(f, i.ops[1])
                if fa and fa.startswith(base + "."):
                    v = P._fnvals(f, i.ops[0])
                    if v: d[fa] = v[0].qname
            if base + ".eq" in d: yield base, f, d

def container_pairs(P):
    """(hash, eq) function constants handed over together"""
    for q, f in sorted(P.funcs.items()):
        if f.mod not in P.core_mods: continue
        for c in P.calls[q]:
            if c.extra != "direct" or len(c.ops) < 2: continue
            if c.callee not in ("frt_h_new", "frt_hs_new"): continue
            a, b = P._fnvals(f, c.ops[0]), P._fnvals(f, c.ops[1])
            if len(a) == 1 and len(b) == 1: yield f, c, a[0], b[0]

def lookup(P, R, f, c, e):
    """every part of a key that is filled in for a lookup in the table is looked at by the table's equality"""
    flds = {P.field_addr(f, u.ops[1]) for u in f.users(c.res or "") if u.op == "store" and u.ops[0] == c.res} - {None}
    if not flds: return
    eu = uses(P, e)
    looked = {k for k, per in eu.items() if per.get(0) and per.get(1)}
    names = set()
    for k in looked: names |= set(fields_in(k))
    for q, g in sorted(P.funcs.items()):
        if g.mod not in P.core_mods: continue
        for d in P.calls[q]:
            if d.extra != "direct" or d.callee not in ("frt_h_get", "frt_h_has_key", "frt_h_lookup") or len(d.ops) < 2: continue
            if P.field_load(g, d.ops[0]) not in flds: continue
            k = sym(P, g).key(d.ops[1])
            if k[0] != "loc": continue
            for i in g.insts():
                if i.op == "store" and sym(P, g).key(i.ops[1])[0] == "fld" and sym(P, g).key(i.ops[1])[1] == k:
                    fa = P.field_addr(g, i.ops[1])
                    R.check("R4", fa in names, "%s:%s" % (g.file, i.line), q, "%s of the lookup key is compared by %s" % (fa, e.qname),
                            "looks up a key by its '%s', which the table's equality %s() ignores: what was stored for another value is found" % (fa.split(".")[-1], e.qname), key="R4|%s|%s" % (e.qname, fa))

# ---------------------------------------------------------------- paths
def root(k):
    while isinstance(k, tuple) and k and k[0] in ("ld", "fld", "at"): k = k[1]
    return k

def canon(k):
    """access path with the object and array indexes abstracted"""
    if k[0] == "arg": return ("x",)
    if k[0] == "ld": return ("ld", canon(k[1]))
    if k[0] == "fld": return ("fld", canon(k[1]), k[2])
    if k[0] == "at":
        b = canon(k[1])
        if b[0] == "at" and len(b) == 2: return b                  # a step from somewhere in the array
        if k[2][0]: return ("at", b[1] if b[0] == "at" else b)
        return ("at", b, k[2][1])
    return k

def exact(k):
    """access path with only the object abstracted (an index taken from the object itself stays relative to it)"""
    if not isinstance(k, tuple) or not k: return k
    if k[0] == "arg": return ("x",)
    return tuple(exact(x) for x in k)

def show(k):
    if k[0] == "x": return "object"
    if k[0] == "ld": return show(k[1])
    if k[0] == "fld": return (show(k[1]) + "->" if k[1][0] != "x" else "") + k[2].split(".")[-1]
    if k[0] == "at": return show(k[1]) + "[]"
    return "?"

def uses(P, f):
    """canonical path -> {arg index: set of (how, detail)} for every value of the function that is part of an argument object"""
    S = sym(P, f); out = collections.defaultdict(lambda: collections.defaultdict(set))
    vals = [(a, ("arg", n)) for n, a in enumerate(f.args)]
    for i in f.insts():
        if i.op == "load":
            k = S.key(i.res); r = root(k)
            ks = [k] if r[0] == "arg" else [("ld", subst(k[1], r, x)) for x in phi_roots(S, f, r[1])] if r[0] in ("phi", "sel") else []
            for k in ks:
                if k[1][0] == "fld" and "|" in k[1][2]:
                    for v, n in bits(P, f, i.res): vals.append((v, ("ld", ("fld", k[1][1], n))))
                else: vals.append((i.res, k))
    for v, k in vals:
        r = root(k)
        if r[0] != "arg": continue
        ck = canon(k)
        for how in used_as(P, f, S, v): out[ck][r[1]].add(how)
    return out

def bits(P, f, v):
    """members of a storage unit of bit-fields taken from its value v"""
    out = []; w = [v]; seen = set()
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        for u in f.users(x):
            if u.op in ("and", "lshr", "ashr", "shl", "zext", "sext", "trunc") and u.res and u.ops[0] == x:
                n = P.bit_read(P.expr(f, u.res))
                if n: out.append((u.res, n))
                else: w.append(u.res)
    return out

def subst(k, a, b):
    if k == a: return b
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in k)

def phi_roots(S, f, v, depth=0):
    out = []
    d = f.defs.get(v)
    if d is None or depth > 3: return out
    walks = d.op == "phi" and any(root(S.key(o)) == ("phi", v) and S.key(o)[0] == "at" for o in d.ops)
    if walks:
        for o in d.ops:
            k = S.key(o)
            if root(k)[0] == "arg": out.append(("at", k, ((("i", 1),), 0), "el"))
        return out
    for o in (d.ops if d.op == "phi" else d.ops[1:]):
        k = S.key(o); r = root(k)
        if r[0] == "arg": out.append(k)
        elif r[0] in ("phi", "sel") and r[1] != v: out += [subst(k, r, x) for x in phi_roots(S, f, r[1], depth + 1)]
    return out

def used_as(P, f, S, v):
    out = set(); seen = set(); w = [v]
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        for u in f.users(x):
            if u.op in ("getelementptr", "load"): continue            # part of a longer path
            if u.op in CASTS and u.res: w.append(u.res); continue
            if u.op == "phi" and u.res:
                if any(y.op in ("getelementptr", "load") for y in f.users(u.res)) and not any(y.op not in ("getelementptr", "load") for y in f.users(u.res)): continue
                w.append(u.res); continue
            if u.op in ("icmp", "fcmp"):
                o = [y for y in u.ops if y != x]
                if o and o[0] in ("null", "0") : continue              # a test for presence
                out.add(("cmp", None)); continue
            if u.op == "call":
                if u.callee == x: continue
                n = [k for k, o in enumerate(u.ops) if o == x]
                if u.extra == "direct" and (u.callee.startswith("llvm.") or u.callee in NORETURN): continue
                out.add(("call", content(P, f, u, n[0] if n else 0))); continue
            if u.op in ("br", "switch"): out.add(("val", None)); continue
            if u.op == "store" and u.ops[0] == x: out.add(("val", None)); continue
            if u.op == "ret" or u.res: out.add(("val", None))
    return out

def content(P, f, c, n, depth=0):
    """does the callee look at what the pointer points to?"""
    if c.extra != "direct": return True
    t = P.lookup(f.mod, c.callee)
    if t is None: return True
    if n >= len(t.args) or depth > 3: return True
    seen = set(); w = [t.args[n]]
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        for u in t.users(x):
            if u.op == "load" and u.ops[0] == x: return True
            if u.op in ("getelementptr", "phi", "select") + CASTS[:4] and u.res: w.append(u.res)
            if u.op == "call" and u.callee != x:
                k = [j for j, o in enumerate(u.ops) if o == x]
                if k and content(P, t, u, k[0], depth + 1): return True
    return False

# ---------------------------------------------------------------- hash against equality
def pair(P, R, h, e, done, outer=None):
    if (h.qname, e.qname) in done: return
    done.add((h.qname, e.qname))
    R.analyse(h, e)
    where = "%s:%s" % (h.file, h.line)
    if len(e.args) < 2: return
    hu, eu = uses(P, h), uses(P, e)
    for k, per in (outer or {}).items():
        if k[0] == "ld" and per.get(0) and per.get(1):
            for n in (0, 1): eu[k][n] |= per[n]
    bad = False
    n = 0
    for k, per in sorted(hu.items(), key=lambda x: repr(x[0])):
        hows = per.get(0, set())
        if not hows: continue
        n += 1
        eq = eu.get(k, {})
        seen = bool(eq.get(0)) and bool(eq.get(1))
        nm = show(k)
        if not seen and distinct_constants(P, k, eu): continue
        if not seen:
            bad = True
            R.check("R1", False, where, h.qname, "", "the hash depends on '%s', which the equality %s() does not look at: two equal objects can hash differently" % (nm, e.qname),
                    key="R1|%s|%s|%s" % (h.qname, e.qname, nm)); continue
        # compared by content only, hashed by address
        if k[0] == "ld" and is_ptr_path(P, h, k):
            eqc = eq.get(0, set()) | eq.get(1, set())
            only_content = all(x == ("call", True) for x in eqc)
            by_addr = any(x[0] == "val" or x == ("call", False) for x in hows)
            if only_content and by_addr:
                bad = True
                R.check("R1", False, where, h.qname, "", "'%s' is compared by content but hashed by its address: equal objects hash differently" % nm,
                        key="R1a|%s|%s|%s" % (h.qname, e.qname, nm))
    R.check("R1", not bad, where, h.qname, "%d part(s) hashed, all compared by %s" % (n, e.qname), "", key="R1|%s|%s" % (h.qname, e.qname)) if not bad else None
    symmetric(P, R, e)

def is_ptr_path(P, f, k):
    for i in f.insts():
        if i.op == "load" and i.ty == "ptr":
            kk = sym(P, f).key(i.res)
            if root(kk)[0] == "arg" and canon(kk) == k: return True
    return False

def distinct_constants(P, k, eu):
    """a pointer to one of several constant tables: comparing a member in which the tables differ is as good as comparing the pointer"""
    if k[0] != "ld": return False
    for p, per in eu.items():
        if not (per.get(0) and per.get(1)): continue
        if p[0] == "ld" and p[1][0] == "fld" and p[1][1] == k:
            sn, fl = p[1][2].split(".", 1)
            vals = []
            for m in P.mods:
                ff = m.fields.get("struct." + sn)
                if not ff: continue
                names = [x[0] for x in ff]
                for g, txt in m.globals.items():
                    mm = re.search(r'(?:global|constant) %struct\.' + re.escape(sn) + r' \{(.*)\}', txt)
                    if mm:
                        import ir
                        parts = ir.split_top(mm.group(1))
                        if fl in names and names.index(fl) < len(parts): vals.append(parts[names.index(fl)].strip())
            if vals and len(set(vals)) == len(vals): return True
    return False

def symmetric(P, R, e):
    S = sym(P, e)
    w = lambda i: "%s:%s" % (e.file, i.line)
    def obl(i, a, b, what):
        ka, kb = S.key(a), S.key(b)
        ra, rb = root(ka), root(kb)
        if ra[0] != "arg" or rb[0] != "arg" or ra[1] > 1 or rb[1] > 1: return
        ok = ra != rb and exact(ka) == exact(kb)
        msg = ("compares '%s' of one object with itself" % show(canon(ka))) if ra == rb and ka == kb else \
              ("compares '%s' with '%s'%s" % (show(canon(ka)), show(canon(kb)), " of the same object" if ra == rb else " of the other object"))
        R.check("R2", ok, w(i), e.qname, "%s: '%s' of both objects" % (what, show(canon(ka))), msg, key="R2|%s|%s|%s" % (e.qname, show(canon(ka)), show(canon(kb))))
    for i in e.insts():
        if i.op == "icmp" and i.extra in ("eq", "ne") or i.op == "fcmp": obl(i, i.ops[0], i.ops[1], "==")
        elif i.op == "call" and len(i.ops) >= 2 and not (i.extra == "direct" and (i.callee.startswith("llvm.") or i.callee in NORETURN)):
            if i.extra == "direct":
                if not (i.callee in ("strcmp", "strncmp", "memcmp", "strcasecmp") or re.search(r'_eq$|_cmp$', i.callee)): continue
            elif not (P.slot(i) or "").endswith(".eq"): continue
            obl(i, i.ops[0], i.ops[1], P.callee_name(i))

# ---------------------------------------------------------------- same type
def guarded(P, R):
    """an indirect call of an eq slot: the two objects' types (or operation pointers) were compared equal on the way"""
    for q, f in sorted(P.funcs.items()):
        if f.mod not in P.core_mods: continue
        for c in P.calls[q]:
            s = P.slot(c) if c.extra != "direct" else None
            if s not in ("FrtQuery.eq", "FrtFilter.eq") or len(c.ops) < 2: continue
            base = s.split(".")[0]
            S = sym(P, f)
            a, b = S.key(c.ops[0]), S.key(c.ops[1])
            ok = a == b or any(same_type(P, S, f, t, tk, a, b, base) for t, tk in dom_conds(S, f, c))
            R.check("R3", ok, "%s:%s" % (f.file, c.line), q, "types compared before %s" % s,
                    "applies one object's equality to another whose type was not compared first: objects of different types are read as if they were of one type",
                    key="R3|%s|%s" % (q, show(canon(a)) if root(a)[0] == "arg" else "object"))

def dom_conds(S, f, c):
    """(branch condition, outcome) that hold whenever control is at c"""
    bn = c.bb.name if hasattr(c.bb, "name") else c.bb
    out = []
    dom = S.dom(); x = bn
    while x is not None:
        p = dom.get(x)
        if p is not None:
            t = f.blocks[p].term
            if t.op == "br" and len(t.extra) == 2 and t.extra[0] != t.extra[1]:
                for k in (0, 1):
                    # the edge p -> extra[k] dominates bn
                    if not S.reaches(f.order[0], {bn}, ()) : continue
                    other = t.extra[1 - k]
                    if not reach_without_edge(f, f.order[0], bn, p, t.extra[k]): out.append((t.ops[0], k == 0))
        x = p
    return out

def reach_without_edge(f, a, b, p, s):
    seen = set(); w = [a]
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        if x == b: return True
        for y in f.blocks[x].succs:
            if x == p and y == s: continue
            w.append(y)
    return False

def same_type(P, S, f, cond, taken, a, b, base):
    d = f.defs.get(cond)
    while d is not None and (d.op in ("freeze", "zext", "trunc") or (d.op == "xor" and d.ops[1] in ("true", "1"))):
        if d.op == "xor": taken = not taken
        d = f.defs.get(d.ops[0])
    if d is None or d.op != "icmp" or d.extra not in ("eq", "ne"): return False
    if (d.extra == "eq") != taken: return False
    x, y = S.key(d.ops[0]), S.key(d.ops[1])
    for u, v in ((x, y), (y, x)):
        if u[0] == "ld" and v[0] == "ld" and u[1][0] == "fld" and v[1][0] == "fld" and u[1][2] == v[1][2] \
           and u[1][2] in (base + ".type", base + ".eq", base + ".get_bv_i", base + ".create_weight_i") and u[1][1] == a and v[1][1] == b: return True
    return False

# ---------------------------------------------------------------- what the operations depend on
def depends(P, R, base, ctor, d):
    e = P.funcs[d[base + ".eq"]]
    eu = uses(P, e)
    looked = set()
    for k, per in eu.items():
        if per.get(0) and per.get(1): looked |= set(fields_in(k))
    stored = {}
    for i in ctor.insts():
        if i.op == "store":
            fa = P.field_addr(ctor, i.ops[1])
            if fa and not fa.startswith(base + ".") and not P._fnvals(ctor, i.ops[0]):
                if "|" in fa:
                    n = P.bit_write(ctor, i)
                    if n and n[0]: stored.setdefault(n[0], i)
                else: stored.setdefault(fa, i)
    ops = {q for s, q in d.items() if s.split(".")[1] not in ("eq", "hash", "to_s", "destroy_i")}
    own = {q for s, q in d.items() if s.split(".")[1] in ("eq", "hash", "to_s", "destroy_i")} | {ctor.qname}
    reach = reachable(P, ops)
    allops = {q for s in P.slots for q in P.slots[s] if s.startswith(base + ".")}
    for fa, st in sorted(stored.items()):
        sn = fa.split(".")[0]
        if fnptr_field(P, fa): continue
        rd = []
        derived = False
        for q in sorted(reach | own):
            g = P.funcs[q]
            ld = [i for i in g.insts() if i.op == "load" and reads_field(P, g, i, fa)]
            wr = any(i.op == "store" and (P.field_addr(g, i.ops[1]) or "").startswith(sn + ".") for i in g.insts())
            if q in own: continue
            if wr and any(i.op == "store" and P.field_addr(g, i.ops[1]) == fa for i in g.insts()): derived = True
            if wr: continue
            ld = [i for i in ld if not size_only(P, g, i)]
            if ld: rd.append((q, ld[0]))
        if derived or not rd: continue
        R.check("R4", fa in looked, "%s:%s" % (e.file, e.line), e.qname, "%s (used by %s) is compared" % (fa, rd[0][0]),
                "objects differing in '%s' compare equal although %s() depends on it" % (fa.split(".")[1], rd[0][0]), key="R4|%s|%s" % (e.qname, fa))

def reads_field(P, g, i, fa):
    x = P.field_addr(g, i.ops[0])
    if x == fa: return True
    return bool(x) and "|" in x and x.split(".")[0] == fa.split(".")[0] and any(n == fa for v, n in bits(P, g, i.res))

def reachable(P, ops):
    seen = set(); w = list(ops)
    while w:
        q = w.pop()
        if q in seen or q not in P.funcs: continue
        seen.add(q)
        for c in P.calls[q]:
            if c.extra == "direct":
                t = P.lookup(P.funcs[q].mod, c.callee)
                if t is not None: w.append(t.qname)
    # weights and scorers are reached through constructors' slots
        for i in P.funcs[q].insts():
            if i.op == "store":
                for t in P._fnvals(P.funcs[q], i.ops[0]): w.append(t.qname)
    return seen

def fnptr_field(P, fa): return bool(P.slots.get(fa))

def size_only(P, g, ld):
    """the value only says how much to allocate or copy"""
    seen = set(); w = [ld.res]; n = 0
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        for u in g.users(x):
            if u.op in ("mul", "shl") + CASTS and u.res: w.append(u.res); continue
            if u.op == "call" and u.extra == "direct" and u.callee in ("frt_emalloc", "frt_ecalloc", "frt_erealloc", "memcpy", "malloc", "llvm.memcpy.p0.p0.i64"): n += 1; continue
            if u.op == "store" and u.ops[0] == x: n += 1; continue
            return False
    return n > 0
