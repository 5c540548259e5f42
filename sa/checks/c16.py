"""C16: file positions and lengths keep all 64 bits."""
import collections, re
import ir
from sym import Sym
INLINE = True

CALLS = {"frt_is_pos", "frt_os_pos", "frt_is_read_voff_t", "frt_is_read_i64", "frt_is_read_u64",
         "lseek", "lseek64", "ftello", "ftello64", "ftell"}
SLOTS = {"FrtStore.length", "FrtInStreamMethods.length_i"}
SEEKS = {"frt_is_seek": 1, "frt_os_seek": 1, "lseek": 1, "lseek64": 1}
SEEKSLOT = {"FrtInStreamMethods.seek_i": 1, "FrtOutStreamMethods.seek_i": 1}
READ32 = {"frt_is_read_i32", "frt_is_read_u32", "frt_is_read_vint"}
WIDE = ("sext", "zext")

def run(P, R):
    R.rule("R1", "a value that is a position in, or the length of, a file is never narrowed to 32 bits or fewer (differences of two positions, "
                 "quotients, remainders and values compared below a 31-bit bound are not positions)", floor=10)
    R.rule("R2", "an offset passed to a seek is computed in 64 bits: no product or sum of 32-bit values is widened only afterwards", floor=15)
    R.rule("R3", "what a length operation returns or a seek is given was not kept in a 32-bit variable or field on its way there", floor=15)
    R.rule("R4", "the 64-bit decoders assemble their result in 64 bits", floor=2)
    T = Taint(P); T.run()
    sites = 0
    for (q, v) in sorted(T.val):
        f = P.funcs[q]
        for u in f.users(v):
            if u.op == "trunc" and u.ops[0] == v:
                w = int(u.ty[1:]) if re.match(r'^i\d+$', u.ty) else 64
                if w >= 64: continue
                if byte_extract(f, u) or bounded(P, f, v): R.ok("R1", "%s:%s" % (f.file, u.line), "%s: narrows a bounded part" % q); continue
                R.bad("R1", "%s:%s" % (f.file, u.line), q, "a file position or length (%s) is narrowed to %d bits" % (T.src[(q, v)], w),
                      key="R1|%s|%s" % (q, T.src[(q, v)].split(" in ")[0]))
            elif u.op in ("store", "ret", "call") and not (u.op == "store" and u.ops[1] == v):
                sites += 1; R.ok("R1", "%s:%s" % (f.file, u.line), "%s: passed on in 64 bits" % q)
        R.analyse(f)
    seeks(P, R); kept(P, R); decoders(P, R)
    R.assumption("int is 32 bits and off_t 64 bits, as in the build (_FILE_OFFSET_BITS=64).")

def byte_extract(f, u):
    """one byte of an encoder"""
    return u.ty == "i8"

class Taint:
    def __init__(self, P):
        self.P = P; self.val = {}; self.src = {}; self.work = []; self.fld = set()
        self.loads = collections.defaultdict(list)
        for f in P.funcs.values():
            for i in f.insts():
                if i.op == "load" and i.ty == "i64":
                    fa = P.field_addr(f, i.ops[0])
                    if fa: self.loads[fa].append((f, i))
    def add(self, f, v, why):
        if v is None or (f.qname, v) in self.val: return
        self.val[(f.qname, v)] = True; self.src[(f.qname, v)] = why; self.work.append((f, v))
    def pos(self, f, v): return (f.qname, v) in self.val
    def run(self):
        P = self.P
        for q, cs in P.calls.items():
            for c in cs:
                if not c.res: continue
                if c.extra == "direct" and c.callee in CALLS: self.add(c.fn, c.res, "from %s" % c.callee)
                elif c.extra != "direct" and P.slot(c) in SLOTS: self.add(c.fn, c.res, "from %s" % P.slot(c))
        # parameters of seeks
        for s, n in SEEKSLOT.items():
            for q in P.slots.get(s, ()):
                g = P.funcs[q]
                if n < len(g.args): self.add(g, g.args[n], "seek target")
        for nm in ("frt_is_seek", "frt_os_seek", "frt_os_write_voff_t", "frt_os_write_u64", "frt_os_write_i64", "frt_os_write_vll"):
            if P.has(nm): g = P.fn(nm); self.add(g, g.args[1], "seek target")
        while self.work:
            f, v = self.work.pop()
            why = self.src[(f.qname, v)]
            for u in f.users(v):
                if u.op == "add": self.add(f, u.res, why)
                elif u.op == "sub":
                    if u.ops[0] == v and not self.posish(f, u.ops[1]): self.add(f, u.res, why)
                elif u.op in ("phi", "freeze") or u.op == "select" and u.ops[0] != v:
                    if u.op == "phi" or u.op == "freeze" or v in u.ops[1:]: self.add(f, u.res, why)
                elif u.op == "store" and u.ops[0] == v:
                    fa = P.field_addr(f, u.ops[1])
                    if fa and fa not in self.fld:
                        self.fld.add(fa)
                        for g, i in self.loads[fa]: self.add(g, i.res, why if " in " in why else "%s, kept in %s" % (why, fa))
                    elif not fa:
                        d = f.defs.get(u.ops[1])
                        if d is not None and d.op == "alloca":
                            for x in f.users(u.ops[1]):
                                if x.op == "load": self.add(f, x.res, why)
                elif u.op == "ret":
                    for c in P.callers[f.qname]:
                        if c.res: self.add(c.fn, c.res, "%s, returned by %s" % (why, f.qname) if "returned" not in why else why)
                elif u.op == "call":
                    for n, o in enumerate(u.ops):
                        if o != v: continue
                        for t in P.targets(u):
                            if n < len(t.args) and not t.short.startswith("frt_h_"): self.add(t, t.args[n], why)
        # a difference found before its subtrahend was known to be a position
    def posish(self, f, v):
        """is the subtrahend a position too (the result is then a distance)?"""
        seen = set(); w = [v]
        while w:
            x = w.pop()
            if x in seen: continue
            seen.add(x)
            if (f.qname, x) in self.val: return True
            if x in f.args:
                # a 64-bit parameter or anything loaded from a 64-bit field is a position
                return True
            d = f.defs.get(x)
            if d is None: continue
            if d.op == "load": return d.ty == "i64"
            if d.op == "call": return d.ty == "i64"
            if d.op in ("phi", "select", "add", "sub", "freeze"): w += [o for o in d.ops if isinstance(o, str)]
        return False

LIM = 1 << 31

def bounded(P, f, v, depth=0):
    """every way v gets its value is under a comparison with a small constant"""
    S = getattr(f, "_s16", None)
    if S is None: S = f._s16 = Sym(P, f)
    d = f.defs.get(v)
    if d is None: return False
    if d.op == "phi":
        for o, b in d.extra:
            if re.match(r'^-?\d+$', o): continue
            if small(S, o, S.edge_facts(b) + edge(S, f, b, d.bb.name if hasattr(d.bb, "name") else d.bb)): continue
            if depth < 4 and o != v and bounded(P, f, o, depth + 1): continue
            return False
        return True
    if d.op == "select":
        fs = lambda t: S.facts(d.ops[0], t)
        return all(re.match(r'^-?\d+$', o) or small(S, o, fs(t)) for o, t in ((d.ops[1], True), (d.ops[2], False)))
    u = [x for x in f.users(v) if x.op == "trunc"]
    for x in u:
        b = x.bb.name if hasattr(x.bb, "name") else x.bb
        if not small(S, v, S.edge_facts(b)): return False
    return True

def edge(S, f, b, to):
    t = f.blocks[b].term
    if t is not None and t.op == "br" and len(t.extra) == 2 and t.extra[0] != t.extra[1]: return S.facts(t.ops[0], t.extra[0] == to)
    return []

def small(S, o, facts):
    l = S.lin(o)
    for k, c in facts:
        if k == l[0] and l[1] - c < LIM: return True      # l + (c - l1) <= 0
    return False

def seeks(P, R):
    for q, cs in sorted(P.calls.items()):
        for c in cs:
            n = SEEKS.get(c.callee) if c.extra == "direct" else SEEKSLOT.get(P.slot(c))
            if n is None or n >= len(c.ops): continue
            f = c.fn; R.analyse(f)
            bad = narrow(f, c.ops[n])
            R.check("R2", bad is None, "%s:%s" % (f.file, c.line), q, "the offset is computed in 64 bits",
                    "the offset passed to a seek is computed in 32 bits (%s)" % (bad.op if bad else ""), key="R2|%s" % q)

def narrow(f, v, seen=None, depth=0):
    """an extension of 32-bit arithmetic on the way to v"""
    seen = set() if seen is None else seen
    if v in seen or depth > 20: return None
    seen.add(v)
    d = f.defs.get(v)
    if d is None: return None
    if d.op in WIDE:
        x = f.defs.get(d.ops[0])
        while x is not None and x.op == "freeze": x = f.defs.get(x.ops[0])
        if x is not None and x.op in ("mul", "shl", "add") and not const_small(x): return x
        return None
    if d.op in ("add", "sub", "mul", "shl", "phi", "select", "freeze"):
        for o in d.ops:
            if isinstance(o, str):
                b = narrow(f, o, seen, depth + 1)
                if b is not None: return b
    return None

def const_small(x):
    """n + constant cannot overflow for a valid index"""
    return x.op == "add" and any(re.match(r'^-?\d+$', o) for o in x.ops)

LENGTHS = ("FrtStore.length", "FrtInStreamMethods.length_i")
WRITES = {"frt_os_write_voff_t": 1, "frt_os_write_u64": 1, "frt_os_write_i64": 1}

def kept(P, R):
    stores = collections.defaultdict(list)
    for f in P.funcs.values():
        for i in f.insts():
            if i.op == "store":
                fa = P.field_addr(f, i.ops[1])
                if fa: stores[fa].append((f, i.ops[0]))
    sinks = []
    for s in LENGTHS:
        for q in sorted(P.slots.get(s, ())):
            f = P.funcs[q]
            for i in f.insts():
                if i.op == "ret" and i.ops and isinstance(i.ops[0], str): sinks.append((f, i, i.ops[0], "the length it returns"))
    for q, cs in sorted(P.calls.items()):
        for c in cs:
            n = (SEEKS.get(c.callee) if c.callee in SEEKS else WRITES.get(c.callee)) if c.extra == "direct" else SEEKSLOT.get(P.slot(c))
            if n is not None and n < len(c.ops): sinks.append((c.fn, c, c.ops[n], "the position passed on"))
    for f, i, v, what in sinks:
        b = back(P, f, v, stores)
        R.check("R3", b is None, "%s:%s" % (f.file, i.line), f.qname, "%s is 64-bit all the way" % what,
                "%s went through 32 bits (%s)" % (what, b), key="R3|%s" % f.qname)

def back(P, f, v, stores):
    seen = set(); w = [(f, v)]
    while w:
        g, x = w.pop()
        if (g.qname, x) in seen or len(seen) > 4000: continue
        seen.add((g.qname, x))
        if x in g.args:
            n = g.args.index(x)
            for c in P.callers[g.qname]:
                if n < len(c.ops) and isinstance(c.ops[n], str): w.append((c.fn, c.ops[n]))
            continue
        d = g.defs.get(x)
        if d is None: continue
        if d.op in ("phi", "select", "freeze"): w += [(g, o) for o in (d.ops[1:] if d.op == "select" else d.ops) if isinstance(o, str)]
        elif d.op in WIDE:
            y = g.defs.get(d.ops[0])
            if y is not None and (y.op == "trunc" or (y.op == "load" and y.ty in ("i32", "i16") and trunc_stored(P, g, y, stores))):
                return "line %s of %s" % (d.line, g.qname)
        elif d.op == "load" and d.ty == "i64":
            fa = P.field_addr(g, d.ops[0])
            if fa: w += stores.get(fa, [])
        elif d.op == "call":
            for t in P.targets(d):
                for i in t.insts():
                    if i.op == "ret" and i.ops and isinstance(i.ops[0], str): w.append((t, i.ops[0]))
    return None

def trunc_stored(P, g, y, stores):
    """a 32-bit field or local that is assigned from a 64-bit value somewhere"""
    fa = P.field_addr(g, y.ops[0])
    if fa:
        return any((h.defs.get(v) is not None and h.defs[v].op == "trunc" and h.defs[v].extra == "i64") for h, v in stores.get(fa, ()))
    return any(u.op == "store" and g.defs.get(u.ops[0]) is not None and g.defs[u.ops[0]].op == "trunc" for u in g.users(y.ops[0]))

def decoders(P, R):
    for nm in ("frt_is_read_voff_t", "frt_is_read_vll", "frt_is_read_i64", "frt_is_read_u64"):
        if not P.has(nm): continue
        f = P.fn(nm); R.analyse(f)
        bad = [i for i in f.insts() if i.op in WIDE and f.defs.get(i.ops[0]) is not None and wide32(f, i.ops[0])
               and not all(u.op in ("shl", "lshr", "ashr") and u.ops[1] == i.res and u.ops[0] != i.res for u in f.users(i.res))]
        bad += [i for i in f.insts() if i.op == "trunc" and i.extra == "i64"]
        R.check("R4", not bad, "%s:%s" % (f.file, bad[0].line if bad else f.line), f.qname, "assembled in 64 bits",
                "shifts or combines bytes in 32 bits", key="R4|%s" % nm)

def wide32(f, v):
    d = f.defs.get(v)
    if d is None or d.ty != "i32" and d.op not in ("shl", "or", "phi"): return False
    return d.op in ("shl", "or", "add", "phi")
