"""Languages of primitive stream operations: NFA extraction from (helper-inlined) IR, determinisation, comparison."""
import re, collections
from sym import Sym, add
from prog import NORETURN, RAISE_FNS, _handlers

PRIM_W = {"frt_os_write_byte": "byte", "frt_os_write_i32": "u32", "frt_os_write_u32": "u32", "frt_os_write_i64": "u64", "frt_os_write_u64": "u64",
          "frt_os_write_vint": "vint", "frt_os_write_vll": "vll", "frt_os_write_voff_t": "voff", "frt_os_write_string": "string", "frt_os_write_bytes": "bytes",
          "frt_os_seek": "#"}
PRIM_R = {"frt_is_read_byte": "byte", "frt_is_read_i32": "u32", "frt_is_read_u32": "u32", "frt_is_read_i64": "u64", "frt_is_read_u64": "u64",
          "frt_is_read_vint": "vint", "frt_is_read_vll": "vll", "frt_is_read_voff_t": "voff", "frt_is_read_string": "string", "frt_is_read_string_safe": "string",
          "frt_is_read_bytes": "bytes", "frt_is_seek": "#", "frt_is_skip_vints": "vints"}
PRIM = dict(PRIM_W); PRIM.update(PRIM_R)

def sym(P, f):
    s = getattr(f, "_symc", None)
    if s is None: s = f._symc = Sym(P, f)
    return s

def fields_in(k, out=None):
    """field names along an access path key, outermost last"""
    out = [] if out is None else out
    while isinstance(k, tuple) and k:
        if k[0] == "fld": out.append(k[2]); k = k[1]
        elif k[0] in ("ld", "at"): k = k[1]
        else: break
    return out

class Nfa:
    def __init__(self):
        self.eps = collections.defaultdict(set); self.tr = collections.defaultdict(list)
        self.start = ("s",); self.acc = set()
    def edge(self, a, sy, b, site=None):
        if sy is None: self.eps[a].add(b)
        else: self.tr[a].append((sy, b, site))

def build(P, f, sel, ignore=(), guards=None, parity=False, tag=(), N=None, entry=None, final=None, depth=0, stop_seek=False):
    """sel(key of the stream operand) -> bool"""
    top = N is None
    if top:
        N = Nfa(); entry = N.start; final = ("f",); N.acc = {final}
    S = sym(P, f)
    nd = lambda b, i: (tag, f.qname, b, i)
    hb = set()
    for h in _handlers(f).values(): hb |= set(h[0])
    N.edge(entry, None, nd(f.order[0], 0))
    act = {bn for bn in f.order if any(active(P, S, f, i, sel, ignore) for i in f.blocks[bn].insts)}
    for bn in f.order:
        b = f.blocks[bn]
        cur = nd(bn, 0)
        n = 0
        ended = False
        for i in b.insts:
            if i.op == "call":
                c = i.callee if i.extra == "direct" else None
                if c in NORETURN or c in RAISE_FNS: ended = True; break
                if c in ("frt_os_close", "frt_is_close") and i.ops and sel(S.key(i.ops[0]), f):
                    N.edge(cur, None, final); ended = True; break
                sy = None
                if c in PRIM:
                    if sel(S.key(i.ops[0]), f) and PRIM[c] not in ignore: sy = PRIM[c]
                    else: continue
                elif c is not None:
                    t = P.lookup(f.mod, c)
                    if t is None or depth > 6: continue
                    ns = [k for k, o in enumerate(i.ops) if isinstance(o, str) and sel(S.key(o), f)]
                    if not ns or not has_prim(P, t): continue
                    n += 1; nx = nd(bn, n)
                    args = tuple(ns)
                    def sub(k, g, args=args, t=t): return k[0] == "arg" and k[1] in args and g is t
                    build(P, t, sub, ignore, guards, parity, tag + ((f.qname, bn, n),), N, cur, nx, depth + 1, stop_seek)
                    cur = nx; continue
                else: continue
                if sy == "#" and stop_seek:
                    N.edge(cur, None, final); ended = True; break
                n += 1; nx = nd(bn, n)
                N.edge(cur, sy, nx, i)
                cur = nx
                if parity and sy == "vint" and c in PRIM_W:
                    p = parity_of(S, i.ops[1])
                    if p is not None:
                        n += 1; nx = nd(bn, n); N.edge(cur, p, nx, i); cur = nx
        if ended: continue
        t = b.term
        if t is None: continue
        if t.op == "ret": N.edge(cur, None, final); continue
        if t.op == "switch":
            d = f.defs.get(t.ops[0])
            if d is not None and d.op == "call" and d.callee in ("_setjmp", "setjmp", "__sigsetjmp"):
                for v, x in t.extra[1]:
                    if v == 0: N.edge(cur, None, nd(x, 0))
                continue
        gone = None
        if t.op == "br" and len(t.extra) == 2 and t.extra[0] != t.extra[1]:
            d = f.defs.get(t.ops[0])
            if d is not None and d.op == "icmp" and d.extra in ("eq", "ne") and "null" in d.ops \
                    and sel(S.key(d.ops[0] if d.ops[1] == "null" else d.ops[1]), f):
                gone = t.extra[0 if d.extra == "eq" else 1]     # without the stream there is no record
        for x in dict.fromkeys(b.succs):
            if x == gone: continue
            mk = None
            if t.op == "br" and len(t.extra) == 2 and t.extra[0] != t.extra[1] and decides(S, f, bn, act):
                mk = marker(P, S, f, t, t.extra[0] == x, guards, parity, sel)
            if mk is None: N.edge(cur, None, nd(x, 0))
            else: N.edge(cur, mk, nd(x, 0), t)
    return N

def active(P, S, f, i, sel, ignore):
    if i.op != "call" or i.extra != "direct": return False
    if i.callee in PRIM: return PRIM[i.callee] not in ignore and sel(S.key(i.ops[0]), f)
    t = P.lookup(f.mod, i.callee)
    return t is not None and any(isinstance(o, str) and sel(S.key(o), f) for o in i.ops) and has_prim(P, t)

def ipdom(S, f):
    """immediate postdominators (None: exit)"""
    r = getattr(S, "_ipd", None)
    if r is not None: return r
    blocks = list(f.order); EX = None
    pd = {b: None for b in blocks}
    allb = set(blocks) | {"$"}
    pds = {b: set(allb) for b in blocks}; pds["$"] = {"$"}
    ch = True
    while ch:
        ch = False
        for b in reversed(blocks):
            ss = f.blocks[b].succs or ["$"]
            t = f.blocks[b].term
            n = set.intersection(*(pds[x] for x in ss)) | {b}
            if n != pds[b]: pds[b] = n; ch = True
    for b in blocks:
        c = pds[b] - {b}
        # nearest: the one postdominated by all the others
        best = [x for x in c if len(pds[x]) == len(c)]
        pd[b] = best[0] if best else "$"
    S._ipd = pd
    return pd

def decides(S, f, bn, act):
    """does it depend on the branch at the end of bn whether an operation on the stream happens before the ways join again?"""
    j = ipdom(S, f)[bn]
    seen = set(); w = list(f.blocks[bn].succs)
    while w:
        x = w.pop()
        if x in seen or x == j: continue
        seen.add(x)
        if x in act: return True
        w += f.blocks[x].succs
    return False

def has_prim(P, t, seen=None):
    seen = set() if seen is None else seen
    if t.qname in seen: return False
    seen.add(t.qname)
    for c in P.calls[t.qname]:
        if c.extra != "direct": continue
        if c.callee in PRIM: return True
        u = P.lookup(t.mod, c.callee)
        if u is not None and has_prim(P, u, seen): return True
    return False

def parity_of(S, v):
    """low bit of a written value: 'odd' (x|1), 'even' (x<<1) or unknown"""
    f = S.f
    v = S.strip0(v); d = f.defs.get(v)
    if d is None: return None
    if d.op == "or" and ("1" in d.ops): return "odd"
    if d.op == "add" and "1" in d.ops: 
        o = [x for x in d.ops if x != "1"]
        if o and parity_of(S, o[0]) == "even": return "odd"
    if d.op == "shl" and d.ops[1].isdigit() and int(d.ops[1]) >= 1: return "even"
    if d.op == "mul" and d.ops[1].isdigit() and int(d.ops[1]) % 2 == 0: return "even"
    return None

def marker(P, S, f, t, taken, guards, parity, sel):
    d = f.defs.get(t.ops[0])
    neg = False
    while d is not None and (d.op in ("freeze", "zext", "trunc") or (d.op == "xor" and d.ops[1] in ("true", "1", "-1"))
                             or (d.op == "icmp" and d.extra in ("eq", "ne") and d.ops[1] in ("0", "false")
                                 and f.defs.get(d.ops[0]) is not None and f.defs[d.ops[0]].op in ("zext", "icmp", "xor") )):
        if d.op == "xor" or (d.op == "icmp" and d.extra == "eq"): neg = not neg
        d = f.defs.get(d.ops[0])
    if d is None or d.op != "icmp": return None
    val = taken != neg
    a, b = d.ops
    if a in ("0", "1") and d.extra in ("eq", "ne"): a, b = b, a
    if parity and d.extra in ("eq", "ne") and b in ("0", "1"):
        x = f.defs.get(S.strip0(a))
        if x is not None and x.op == "and" and "1" in x.ops:
            src = f.defs.get(S.strip0(x.ops[0]))
            if src is not None and src.op == "call" and src.callee == "frt_is_read_vint" and sel(S.key(src.ops[0]), f):
                bit = (d.extra == "ne") == (b == "0")       # true branch means the bit is set
                return "odd" if bit == val else "even"
        if x is not None and x.op in ("srem", "urem") and x.ops[1] == "2":
            bit = (d.extra == "ne") == (b == "0")
            return "odd" if bit == val else "even"
    if guards:
        for o, other, sw in ((a, b, False), (b, a, True)):
            k = S.key(o)
            msk = None
            if k[0] == "and" and len(k) == 4 and k[3][0] == "k": msk = k[3][1]; k = k[2]
            fl = fields_in(k)
            if fl and fl[0] in guards and k[0] == "ld":
                pred = d.extra
                if sw: pred = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pred, pred)
                if msk is not None:
                    if pred in ("eq", "ne") and other == "0": return "%s&%d=%d" % (fl[0], msk, int((pred == "ne") == val))
                    if pred in ("eq", "ne") and other == str(msk): return "%s&%d=%d" % (fl[0], msk, int((pred == "eq") == val))
                    continue
                if re.match(r'^-?\d+$', other): continue
                p = pred[1:] if pred not in ("eq", "ne") else pred
                if not val: p = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}[p]
                return "%s %s limit" % (fl[0], p)
    return None

# ---------------------------------------------------------------- automata
def concat(parts):
    """parts: list of (Nfa, star?) -> Nfa"""
    N = Nfa(); cur = N.start; n = 0
    for M, star in parts:
        n += 1
        ren = lambda s, n=n: ("c", n, s)
        for a, bs in M.eps.items():
            for b in bs: N.edge(ren(a), None, ren(b))
        for a, ts in M.tr.items():
            for sy, b, site in ts: N.edge(ren(a), sy, ren(b), site)
        end = ("e", n)
        if star:
            N.edge(cur, None, end); N.edge(end, None, ren(M.start))
            for x in M.acc: N.edge(ren(x), None, end)
        else:
            N.edge(cur, None, ren(M.start))
            for x in M.acc: N.edge(ren(x), None, end)
        cur = end
    N.acc = {cur}
    return N

def union(*Ms):
    N = Nfa(); n = 0
    for M in Ms:
        n += 1
        ren = lambda s, n=n: ("u", n, s)
        for a, bs in M.eps.items():
            for b in bs: N.edge(ren(a), None, ren(b))
        for a, ts in M.tr.items():
            for sy, b, site in ts: N.edge(ren(a), sy, ren(b), site)
        N.edge(N.start, None, ren(M.start)); N.acc |= {ren(x) for x in M.acc}
    return N

def nonempty(M):
    N = Nfa(); N.start = (0, M.start); N.acc = {(1, x) for x in M.acc}
    for a, bs in M.eps.items():
        for b in bs: N.edge((0, a), None, (0, b)); N.edge((1, a), None, (1, b))
    for a, ts in M.tr.items():
        for sy, b, site in ts: N.edge((0, a), sy, (1, b), site); N.edge((1, a), sy, (1, b), site)
    return N

def word(*sy):
    N = Nfa(); cur = N.start
    for k, s in enumerate(sy):
        N.edge(cur, s, ("w", k)); cur = ("w", k)
    N.acc = {cur}; return N

def closure(N, ss):
    seen = set(ss); w = list(ss)
    while w:
        x = w.pop()
        for y in N.eps.get(x, ()):
            if y not in seen: seen.add(y); w.append(y)
    return frozenset(seen)

def trim(N):
    """states that can reach acceptance"""
    rev = collections.defaultdict(set)
    for a, bs in N.eps.items():
        for b in bs: rev[b].add(a)
    for a, ts in N.tr.items():
        for sy, b, site in ts: rev[b].add(a)
    seen = set(N.acc); w = list(seen)
    while w:
        x = w.pop()
        for y in rev[x]:
            if y not in seen: seen.add(y); w.append(y)
    return seen

def step(N, live, ss):
    out = collections.defaultdict(set)
    for s in ss:
        for sy, b, site in N.tr.get(s, ()):
            if b in live: out[sy].add(b)
    return {sy: closure(N, {x for x in bs}) & live if False else frozenset(x for x in closure(N, bs) if x in live) for sy, bs in out.items()}

def empty_word(N): return bool(closure(N, {N.start}) & N.acc)

def compare(A, B, incl=False, eps_ok=True, prefix=False):
    """None if the languages agree (incl: L(A) within L(B); prefix: every word of A is a prefix of one of B), else a shortest
    distinguishing word, and which side has it"""
    la, lb = trim(A), trim(B)
    s0 = (frozenset(x for x in closure(A, {A.start}) if x in la), frozenset(x for x in closure(B, {B.start}) if x in lb))
    seen = {s0: ()}; q = collections.deque([s0])
    while q:
        s = q.popleft(); w = seen[s]
        a, b = s
        fa, fb = bool(a & A.acc), bool(b & B.acc)
        if not (eps_ok and not w):
            if prefix:
                if fa and not b: return w, "first"
            elif fa and not fb: return w, "first"
            elif fb and not fa and not incl: return w, "second"
        ta, tb = step(A, la, a), step(B, lb, b)
        for sy in sorted(set(ta) | set(tb)):
            if incl or prefix:
                if sy not in ta: continue
            n = (ta.get(sy, frozenset()), tb.get(sy, frozenset()))
            if n not in seen:
                seen[n] = w + (sy,); q.append(n)
    return None

def aligned(A, B):
    """pairs of operation sites that can stand at the same place of a common word: site of A -> set of sites of B"""
    la, lb = trim(A), trim(B)
    out = collections.defaultdict(set)
    ca, cb = {}, {}
    def cl(N, live, x, memo):
        if x not in memo: memo[x] = [y for y in closure(N, {x}) if y in live]
        return memo[x]
    # forward reachable pairs of states, then keep those that can still finish together
    start = (A.start, B.start)
    seen = {start}; w = [start]; succ = collections.defaultdict(set); pred = collections.defaultdict(set); ends = set(); lab = {}
    while w:
        a, b = p = w.pop()
        for x in cl(A, la, a, ca):
            for y in cl(B, lb, b, cb):
                if x in A.acc and y in B.acc: ends.add(p)
                for sy, x2, s1 in A.tr.get(x, ()):
                    if x2 not in la: continue
                    for sz, y2, s2 in B.tr.get(y, ()):
                        if sz != sy or y2 not in lb: continue
                        n = (x2, y2)
                        succ[p].add(n); pred[n].add(p); lab.setdefault((p, n), set()).add((s1, s2))
                        if n not in seen: seen.add(n); w.append(n)
    good = set(ends); w = list(ends)
    while w:
        x = w.pop()
        for y in pred[x]:
            if y not in good: good.add(y); w.append(y)
    for (p, n), ss in lab.items():
        if n in good:
            for s1, s2 in ss:
                if s1 is not None and s2 is not None and s1.op == "call" and s2.op == "call": out[s1].add(s2)
    return out

# ---------------------------------------------------------------- repetition counts
NUM = {"vint", "u32", "u64", "vll", "voff"}

def _trip(S, f, h, body):
    """number of iterations of the loop at h, as a linear form, when it counts up or down by one"""
    import loops
    for d in f.blocks[h].insts:
        if d.op != "phi": continue
        ct = loops.counter(S, (((("phi", d.res), 1),), 0))
        if ct is None or ct[3] not in (1, -1): continue
        init, step = ct[2], ct[3]; phi = ("phi", d.res)
        for b in body:
            t = f.blocks[b].term
            if t is None or t.op != "br" or len(t.extra) != 2: continue
            if len([s for s in t.extra if s not in body]) != 1: continue
            for l in S.facts(t.ops[0], t.extra[0] in body):
                if l[0].get(phi) != step: continue
                rest = {a: n for a, n in l[0].items() if a != phi}
                if any(a[0] == "phi" and f.defs.get(a[1]) is not None and f.defs[a[1]].bb.name in body for a in rest): continue
                # step 1: phi <= -(rest + c); step -1: phi >= rest + c
                last = ({a: -n * step for a, n in rest.items()}, -l[1] * step)
                n = add(last, init, -1) if step == 1 else add(init, last, -1)
                return (n[0], n[1] + 1), b == h
    return None, False

def _canon(r, t):
    """(x + c) >> k, plus m, is (x + c + m * 2^k) >> k; a division by 2^k of a size likewise"""
    if len(t[0]) != 1: return r
    (a, n), = t[0].items()
    if n != 1 or a[0] not in ("ashr", "lshr", "sdiv", "udiv") or len(a) != 4 or a[3][0] != "k": return r
    q = a[3][1] if a[0].endswith("div") else 1 << a[3][1]
    x = a[2]
    if x[0] == "lin": at, c = x[1]
    else: at, c = ((x, 1),), 0
    return "(%r%+d)/%d" % (at, c + t[1] * q, q)

def repeats(P, f, sel):
    """[(form, line, skips, phi)] for the loops of f that work on the stream: the number of rounds in terms of a value V written / read
    before, whether a round may do nothing, and the local that was written as the count (writers)"""
    S = sym(P, f); out = []
    ops = [i for i in f.insts() if i.op == "call" and i.extra == "direct" and i.callee in PRIM and i.ops and sel(S.key(i.ops[0]), f)]
    sub = [i for i in f.insts() if i.op == "call" and i.extra == "direct" and i.callee not in PRIM and any(isinstance(o, str) and sel(S.key(o), f) for o in i.ops)
           and not re.search(r"_(close|length|pos|seek)$", i.callee)]
    vals = []
    for c in ops:
        if PRIM[c.callee] not in NUM: continue
        ks = []
        if c.callee in PRIM_W: ks.append(S.lin(c.ops[1]))
        elif c.res:
            w = [c.res]; seen = set()
            while w:
                v = w.pop()
                if v in seen: continue
                seen.add(v)
                ks.append(S.lin(v))
                for u in f.users(v):
                    if u.op in ("zext", "sext", "trunc", "freeze"): w.append(u.res)
                    elif u.op == "store" and u.ops[0] == v: ks.append(({("ld", S.key(u.ops[1])): 1}, 0))
        vals.append((c, ks))
    for h, body in sorted(S.loops().items()):
        # innermost loop of the operations
        inner = [b for h2, b in S.loops().items() if h2 != h and b < body]
        own = [i for i in ops + sub if i.bb.name in body and PRIM.get(i.callee) != "#" and not any(i.bb.name in b for b in inner)]
        if not own: continue
        t, top = _trip(S, f, h, body)
        at = {i.bb.name for i in own}
        skips = h not in at and any(S.reaches(s, {h}, avoid=at) for s in f.blocks[h].succs if s in body and s not in at)
        form = None
        if t is not None:
            for c, ks in vals:
                if c.bb.name in body or not S.dominates(c.bb.name, h): continue
                for l in ks:
                    x = add(t, l, -1)
                    if l[0] and not x[0]: form = "V%+d" % x[1]; break
                    if len(l[0]) == 1 and l[1] == 0 and list(l[0].values()) == [1]:
                        a = repr(list(l[0])[0]); r = repr(S.freeze(t))
                        if a in r: form = _canon(r, t).replace(a, "V"); break
                if form: break
        out.append((form, own[0].line, skips, h))
    return out

def _sig(S, f, v, out, n=0):
    """fields and constants a condition tests; False if it is not made of these only"""
    d = f.defs.get(v)
    if n > 8: return False
    if d is None:
        out.add(("k", v)); return re.match(r"^-?\d+$|^true$|^false$|^null$", v) is not None
    if d.op in ("icmp", "and", "or", "xor", "lshr", "ashr", "shl", "zext", "sext", "trunc", "freeze"):
        if d.op == "icmp" and d.extra not in ("eq", "ne"): out.add(d.extra)
        return all(_sig(S, f, o, out, n + 1) for o in d.ops if isinstance(o, str))
    if d.op == "load":
        fl = fields_in(S.key(v))
        if not fl: return False
        out.add(fl[0]); return True
    return False

def _conds(S, f, h, body, at):
    """conditions that decide whether a round reaches `at`: frozenset of signatures, or None if one is not readable"""
    r = set()
    for b in body:
        t = f.blocks[b].term
        if t is None or t.op != "br" or len(t.extra) != 2 or any(s not in body for s in t.extra): continue
        if b in at: continue
        can = [s not in at and S.reaches(s, {h}, avoid=at) for s in t.extra]
        could = [s in at or any(S.reaches(s, {x}, avoid={h}) for x in at) for s in t.extra]
        if can[0] == can[1] and could[0] == could[1]: continue
        g = set()
        if not _sig(S, f, t.ops[0], g): return None
        r.add(frozenset(map(str, g)))
    return frozenset(r)

def counted(P, f, sel):
    """(line, message) for a loop that leaves records out, when a count of them was written before"""
    S = sym(P, f); L = S.loops(); out = []
    ops = [i for i in f.insts() if i.op == "call" and i.extra == "direct" and i.callee in PRIM_W and i.ops and sel(S.key(i.ops[0]), f)]
    for form, line, skips, h in repeats(P, f, sel):
        if not skips: continue
        if form == "V+0": out.append((line, "writes their number but may leave one out")); continue
        if form is not None: continue
        body = L[h]; at = {i.bb.name for i in ops if i.bb.name in body and not any(i.bb.name in b for h2, b in L.items() if h2 != h and b < body)}
        for c in ops:
            if PRIM[c.callee] not in NUM or c.bb.name in body or not S.dominates(c.bb.name, h): continue
            d = f.defs.get(S.strip(c.ops[1]))
            if d is None or d.op != "phi" or d.bb.name not in L or c.bb.name in L[d.bb.name]: continue
            h2 = d.bb.name; b2 = L[h2]
            inc = {i.bb.name for i in f.insts() if i.op == "add" and i.bb.name in b2 and d.res in i.ops and "1" in i.ops}
            if not inc: continue
            s1, s2 = _conds(S, f, h2, b2, inc), _conds(S, f, h, body, at)
            if s1 is not None and s2 is not None and s1 != s2:
                out.append((line, "writes records under other conditions (%s) than those it counted (%s)" % (desc(s2), desc(s1))))
            break
    return out

def desc(s): return "; ".join(" ".join(sorted(x for x in y if "." in x)) for y in sorted(s, key=sorted)) or "none"
