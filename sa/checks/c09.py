"""C09: no text, however long, is written past the end of a buffer of fixed size."""
import re
import ir, interval, bounds
from sym import Sym
from interval import INF
INLINE = True
RUBY = True

OTHER = re.compile(r'stemmer|bzlib|posh|/bz')
GENERATED = re.compile(r'scanner')
NAME = 20                                   # "_" and a number in base 36
NAMED = {"FrtSegmentInfo.name": NAME}
LENS = ("FrtToken.len", "FrtTermEnum.curr_term_len", "FrtSegmentTermIndex.index_term_lens[]", "FrtPostingList.term_len")
TERMBUFS = ("FrtToken.text", "FrtTermEnum.curr_term")

def run(P, R):
    R.rule("R1", "every write into a character array of fixed size (a local array, or one inside a record), direct or by a function that is handed the array, "
                 "ends inside the array: the largest offset plus the largest length, by interval analysis of the function, is at most the array's size", floor=60)
    R.rule("R2", "the recorded length of a token, of the current term and of a posting's term is at most the size of the smallest buffer terms are read into, less one", floor=4)
    R.rule("R3", "an array that bytes of a term are read into from the index is as large as the longest term that is written, and its terminator", floor=1)
    R.rule("R4", "a number's encoding that is written without checking each byte has room in the stream's buffer for the longest one", floor=2)
    R.rule("R5", "a segment's name is a prefix and a number, or was read from the index, so that names of its files fit the arrays they are put together in", floor=2)
    R.rule("R6", "a compressor or decompressor is told, since it was last called, where its output goes and how much room there is, and the room is there", floor=2)
    R.rule("R7", "a block allocated for a text or a table is filled within the size it was allocated with, where both are the same quantity up to a constant", floor=10)
    L = bounds.Strings(P, NAMED)
    A = interval.Analysis(P, L, lambda f: bool(OTHER.search(f.file)))
    B = min([n for n in (size_of(P, x) for x in TERMBUFS) if n] or [255]) - 1
    A.inv = {x: (-INF, B) for x in LENS}
    A.inv["FrtDeterministicState.longest_match"] = (1, INF)
    A.wants = lambda i: i.extra == "direct" and i.callee == "frt_is_read_bytes"
    # exported helpers that record a length they are given are judged at their callers
    A.watch = {q for q, f in P.funcs.items() if P.callers[q] and any(i.op == "store" and P.field_addr(f, i.ops[1]) in LENS and Sym(P, f).strip(i.ops[0]) in f.args for i in f.insts())}
    seen = {}; lens = {}; reads = {}
    for q, f in sorted(P.funcs.items()):
        if not f.blocks or A.skip(f) or GENERATED.search(f.file): continue
        r = A.analyse(f); R.analyse(f)
        for i, reg, lo, hi, n, what in r.writes:
            if reg.elem == "i32" and GENERATED.search(i.fn.file): continue      # the state machine's own stack
            if reg.name == "FrtBuffer.buf" and (shifting(P, i) or not i.fn.qname == q): continue
            end = None if hi >= INF or n[1] >= INF else hi + n[1]
            k = (i.fn.qname, i.line, reg.name, what); old = seen.get(k, 0)
            seen[k] = None if end is None or old is None else max(old, end); seen[("at",) + k] = (i, reg)
        for i, n, v in r.stores:
            if n in LENS and not (i.fn.qname == q and q in A.watch): k = (i.fn.qname, i.line, n); lens[k] = max(lens.get(k, (0,))[0], v[1]), i
        for i, p in r.calls:
            if i.callee == "frt_is_read_bytes" and isinstance(p, tuple): reads[(i.fn.qname, i.line)] = (i, p[1])
    for k, end in sorted((x for x in seen.items() if x[0][0] != "at"), key=repr):
        i, reg = seen[("at",) + k]
        R.check("R1", end is not None and end <= reg.size, "%s:%s" % (i.fn.file, i.line), i.fn.name,
                "%s into %s stays within its %d bytes" % (k[3], reg.name, reg.size),
                bad="%s into %s, which has %d bytes, can reach %s" % (k[3], reg.name, reg.size, "any length" if end is None else "byte %d" % end),
                key="R1|%s|%s|%s" % (i.fn.name, reg.name, k[3]))
    for (q, line, n), (v, i) in sorted(lens.items(), key=repr):
        R.check("R2", v <= B, "%s:%s" % (i.fn.file, line), i.fn.name, "%s is set to at most %d" % (n, B),
                bad="%s can be set to more than %d" % (n, B), key="R2|%s|%s" % (i.fn.name, n))
    for (q, line), (i, reg) in sorted(reads.items()):
        R.check("R3", reg.size >= B + 1, "%s:%s" % (i.fn.file, line), i.fn.name, "%s holds a whole term" % reg.name,
                bad="terms of up to %d bytes are read into %s, which has %d" % (B, reg.name, reg.size), key="R3|%s|%s" % (i.fn.name, reg.name))
    vints(P, R); names(P, R, L); codecs(P, R); blocks(P, R)
    R.assumption("Lengths read from an index are those that were written to it (C07; R2 bounds what is written).")
    R.assumption("Text in a fixed array is terminated inside it, which every write found here keeps up, and operations of stores do not change the names they are given.")
    R.assumption("What a multi-byte character takes is at most 16 bytes; a 64-bit number in base 10 or more has at most 20 digits.")

def size_of(P, name):
    st, fld = name.split(".")
    for m in P.mods:
        for s, fl in m.fields.items():
            if re.sub(r'^(struct|union)\.', '', s) != st: continue
            for n, t, _ in fl:
                x = re.match(r'^\[(\d+) x i8\]$', t)
                if n == fld and x: return int(x.group(1))
    return None

def shift_loops(S, f):
    """loops that shift a number right by a constant each round: (header, body, bits, shift)"""
    for h, body in S.loops().items():
        for d in f.blocks[h].insts:
            if d.op != "phi" or d.ty not in ("i32", "i64"): continue
            for o, p in d.extra:
                x = f.defs.get(S.strip(o))
                if p in body and x is not None and x.op in ("lshr", "ashr") and x.ops[1].isdigit() and S.strip(x.ops[0]) == d.res:
                    yield h, body, int(d.ty[1:]), int(x.ops[1])
def shifting(P, i):
    f = i.fn; S = Sym(P, f)
    return any(True for _ in shift_loops(S, f))

def vints(P, R):
    for q, f in sorted(P.funcs.items()):
        if not f.blocks or OTHER.search(f.file) or not f.file.endswith("store.c"): continue
        S = Sym(P, f)
        for h, body, bits, s in shift_loops(S, f):
            w = [i for b in body for i in f.blocks[b].insts if i.op == "store" and P.field_addr(f, i.ops[1]) in ("FrtBuffer.buf",) or
                 i.op == "store" and i.ty == "i8" and "FrtBuffer.buf" in repr(S.key(i.ops[1]))]
            if not w: continue
            n = -(-bits // s); size = size_of(P, "FrtBuffer.buf") or 1024; top = None
            for l in S.edge_facts(h):
                if len(l[0]) == 1:
                    a, k = next(iter(l[0].items()))
                    if k == 1 and a[0] == "ld" and a[1][0] == "fld" and a[1][2] == "FrtBuffer.pos": top = -l[1] if top is None else min(top, -l[1])
            R.check("R4", top is not None and top + n <= size, "%s:%s" % (f.file, w[0].line), f.name,
                    "room for %d bytes when writing starts at %s or before" % (n, top),
                    bad="up to %d bytes are written from position %s on, into %d" % (n, "any" if top is None else top, size), key="R4|%s" % f.name)

def names(P, R, L):
    for q, f in sorted(P.funcs.items()):
        if not f.blocks: continue
        for i in f.insts():
            if i.op != "store" or i.ty != "ptr" or P.field_addr(f, i.ops[1]) != "FrtSegmentInfo.name" or i.ops[0] == "null": continue
            for g, v, c in origins(P, f, i.ops[0]):
                d = g.defs.get(v)
                ok = d is not None and d.op == "call" and d.extra == "direct" and d.callee.startswith("frt_is_read_string")
                n = None if ok else L.of(g, v)
                R.check("R5", ok or (n is not None and n <= NAME), "%s:%s" % (g.file, c.line), g.name, "a segment's name is read back or has at most %d characters" % NAME,
                        bad="the length of a segment's name is not bounded", key="R5|%s" % g.name)

def origins(P, f, v, n=0, at=None):
    d = f.defs.get(v)
    if v in f.args and n < 4:
        cs = P.callers[f.qname]
        for c in cs: yield from origins(P, c.fn, c.ops[f.args.index(v)], n + 1, c)
        return
    if d is not None and d.op == "load" and n < 4:
        from prog import Program
        k = Sym(P, f).key(v)
        if k[0] == "ld" and k[1][0] == "fld" and k[1][2] in NAMED: return        # another segment's
        if k[0] == "ld" and k[1][0] == "loc":
            for i in f.insts():
                if i.op == "store" and i.ops[1] == k[1][1]: yield from origins(P, f, i.ops[0], n + 1, i)
            return
    if d is not None and d.op in ("phi", "select") and n < 4:
        for o in (d.ops if d.op == "phi" else d.ops[1:]):
            if o not in ("null",): yield from origins(P, f, o, n + 1, d)
        return
    yield f, v, at or d or next(iter(f.insts()))

# ---------------------------------------------------------------- blocks of computed size
ALLOC = {"frt_emalloc": 0, "frt_ecalloc": 0, "frt_erealloc": 1, "malloc": 0, "realloc": 1, "ruby_xmalloc": 0, "ruby_xrealloc": 1}
SIZED = {"memcpy": (0, 2), "memmove": (0, 2), "memset": (0, 2), "strncpy": (0, 2), "frt_is_read_bytes": (1, 2)}
def lin(P, S, v):
    """byte counts, with the length of the same string being the same quantity"""
    def canon(k):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == "call":
                d = S.calls.get(k[1])
                if d is not None and d.callee and d.callee.replace("llvm.", "").startswith("strlen"): return ("strlen", S.key(d.ops[0]))
            return k
        return k
    l = S.lin(v)
    out = {}
    for a, c in l[0].items(): a = canon(a); out[a] = out.get(a, 0) + c
    return {a: c for a, c in out.items() if c}, l[1]
def place(P, S, f, v, n=0):
    """(base value, byte offset) of a pointer"""
    v = S.strip(v); d = f.defs.get(v); off = ({}, 0)
    while d is not None and d.op == "getelementptr" and n < 8:
        n += 1; ty = str(d.ty)
        try: z = ir.sizeof(f.mod, d.ty)
        except Exception: return v, None
        if len(d.ops) == 2: l = lin(P, S, d.ops[1])
        elif len(d.ops) == 3 and ty.startswith("%") and d.ops[2].isdigit():
            l = lin(P, S, d.ops[1]); o = ir.offsetof(f.mod, d.ty, int(d.ops[2])) if hasattr(ir, "offsetof") else None
            if o is None: return v, None
            off = (off[0], off[1] + o)
        else: return v, None
        from sym import add
        off = add(off, ({a: c * z for a, c in l[0].items()}, l[1] * z), 1)
        v = S.strip(d.ops[0]); d = f.defs.get(v)
    return v, off
def blocks(P, R):
    from sym import add
    for q, f in sorted(P.funcs.items()):
        if not f.blocks or OTHER.search(f.file) or GENERATED.search(f.file): continue
        S = Sym(P, f); S.calls = {i.uid: i for i in f.insts() if i.op == "call"}
        al = {i.res: i for i in f.insts() if i.op == "call" and i.extra == "direct" and i.callee in ALLOC}
        if not al: continue
        stored = {S.key(i.ops[1]) for i in f.insts() if i.op == "store"}; fields = {k[2] for k in stored if k[0] == "fld"}
        def steady(k):
            if not isinstance(k, tuple): return True
            if k[0] == "ld" and (k[1] in stored or k[1][0] == "fld" and k[1][2] in fields): return False
            return all(steady(x) for x in k[1:] if isinstance(x, tuple))
        for i in f.insts():
            if i.op == "store": w = (i.ops[1], ({}, ir.sizeof(f.mod, i.ty)), "store")
            elif i.op == "call" and i.callee and i.extra == "direct":
                b = re.sub(r'^llvm\.(\w+)\..*$', r'\1', i.callee); b = re.sub(r'^__(\w+)_chk$', r'\1', b)
                if b in SIZED: w = (i.ops[SIZED[b][0]], lin(P, S, i.ops[SIZED[b][1]]), b)
                elif b in ("strcpy", "stpcpy"): w = (i.ops[0], ({("strlen", S.key(i.ops[1])): 1}, 1), b)
                else: continue
            else: continue
            base, off = place(P, S, f, w[0])
            if base not in al or off is None: continue
            c = al[base]
            n = add(add(lin(P, S, c.ops[ALLOC[c.callee]]), off, -1), w[1], -1)
            if n[0] or not all(steady(a) for a in list(off[0]) + list(w[1][0])): continue
            R.check("R7", n[1] >= 0, "%s:%s" % (f.file, i.line), f.name, "%s stays in the block allocated at line %s" % (w[2], c.line),
                    bad="%s ends %d byte(s) past the block allocated at line %s" % (w[2], -n[1], c.line), key="R7|%s|%s" % (f.name, w[2]))

# ---------------------------------------------------------------- compressors
CODEC = {"BZ2_bzCompress", "BZ2_bzDecompress", "deflate", "inflate"}
def codecs(P, R):
    from sym import add
    for q, f in sorted(P.funcs.items()):
        cs = [i for i in f.insts() if i.op == "call" and i.callee in CODEC] if f.blocks and not OTHER.search(f.file) else []
        if not cs: continue
        S = Sym(P, f); S.calls = {i.uid: i for i in f.insts() if i.op == "call"}
        kinds = ("next_out", "avail_out"); top = {k: None for k in kinds}
        inn = {f.order[0]: {k: frozenset(["unset"]) for k in kinds}}; work = [f.order[0]]; at = {}
        while work:
            b = work.pop(); st = dict(inn[b])
            for i in f.blocks[b].insts:
                if i.op == "store":
                    n = (P.field_addr(f, i.ops[1]) or "").split(".")[-1]
                    if n in kinds: st[n] = frozenset([i.ops[0]])
                elif i in cs: at[i] = dict(st); st = {k: frozenset(["unset"]) for k in kinds}
            for s in f.blocks[b].succs:
                old = inn.get(s); new = st if old is None else {k: old[k] | st[k] for k in kinds}
                if new != old: inn[s] = dict(new); work.append(s)
        for i, st in sorted(at.items(), key=lambda x: x[0].line or 0):
            why = None
            if any("unset" in st[k] for k in kinds): why = "called again without saying where its output goes now and how much room there is"
            else:
                for nx in st["next_out"]:
                    base, off = place(P, S, f, nx); d = f.defs.get(base); room = None
                    m = re.match(r'^\[(\d+) x i8\]$', str(d.ty)) if d is not None and d.op == "alloca" else None
                    if m: room = ({}, int(m.group(1)))
                    elif d is not None and d.op == "call" and d.callee in ALLOC: room = lin(P, S, d.ops[ALLOC[d.callee]])
                    if room is None or off is None: continue
                    for av in st["avail_out"]:
                        n = add(add(room, off, -1), lin(P, S, av), -1)
                        if not n[0] and n[1] < 0: why = "told that there are %d byte(s) more room than there are" % -n[1]
            R.check("R6", why is None, "%s:%s" % (f.file, i.line), f.name, "%s is given its room each time" % i.callee,
                    bad="%s is %s" % (i.callee, why), key="R6|%s|%s" % (f.name, i.callee))
