"""C07: what is written to an index file is read back with the same sequence of encodings, into the same fields."""
import collections, re
import fmt
from fmt import build, concat, union, word, compare, sym, fields_in
from irbuild import AnalysisBroken
INLINE = True

def sel_field(*names):
    def sel(k, f): 
        fl = fields_in(k)
        return bool(fl) and fl[0] in names
    return sel

def sel_path(name, last):
    """stream field `last` of the object kept in field `name`"""
    def sel(k, f):
        fl = fields_in(k)
        return bool(fl) and fl[0] == last and name in fl
    return sel

def sel_any(k, f): return True

def run(P, R):
    R.rule("R1", "for each kind of record, the sequences of primitive values (encoding, order, repetition, presence condition) that the writer can "
                 "produce are exactly those the reader accepts", floor=8)
    R.rule("R2", "a value written from a field is read back into the same field (or, delta-coded, added to it)", floor=8)
    R.rule("R3", "each fixed-width encoder writes its bytes in the order in which the decoder puts them together", floor=4)
    R.rule("R4", "the variable-length encoders and decoders use the same group size and continuation bit", floor=4)
    R.rule("R5", "a repeated part is written as many times as the number written before it says, and read as many times", floor=4)
    R.rule("R6", "a record copied value by value is written with the values, encodings and order in which it was read", floor=1)
    pairs(P, R); counts(P, R); copies(P, R); fixed(P, R); varlen(P, R)
    R.assumption("Values are compared by encoding and field, not numerically; bytes copied in bulk are taken as they are.")

def w(f): return "%s:%s" % (f.file, f.line)

def streams_of(P, f):
    """keys of streams the function operates on directly"""
    S = sym(P, f); out = collections.defaultdict(list)
    for c in P.calls[f.qname]:
        if c.extra == "direct" and c.callee in fmt.PRIM: out[S.key(c.ops[0])].append(c)
    return out

def stream_with(P, f, ops):
    """the stream of f on which (at least) these operations are done"""
    for k, cs in streams_of(P, f).items():
        if set(ops) <= {fmt.PRIM[c.callee] for c in cs}: return k
    return None

def sel_key(key):
    def sel(k, f): return k == key
    return sel

def functions(P, pred): return [f for q, f in sorted(P.funcs.items()) if f.mod in P.core_mods and pred(f)]

def calls(P, f, name): return any(c.extra == "direct" and c.callee == name for c in P.calls[f.qname])

def pairs(P, R):
    NB = ("bytes", "byte")
    def cmp(name, wf, wn, rf, rn, labels=True, **kw):
        R.analyse(wf, rf)
        r = compare(wn, rn, **kw) if not kw.get("prefix") else compare(rn, wn, **kw)
        msg = None
        if r is not None:
            word_, side = r
            if kw.get("prefix"): side = "second"
            if kw.get("incl") and side == "first": pass
            msg = "%s: the %s %s the sequence [%s], which the %s does not" % (
                name, "writer (%s)" % wf.qname if side == "first" else "reader (%s)" % rf.qname, "can produce" if side == "first" else "can take",
                " ".join(word_) or "(nothing)", "reader (%s)" % rf.qname if side == "first" else "writer (%s)" % wf.qname)
        R.check("R1", r is None, w(rf), rf.qname, "%s: same sequences as %s" % (name, wf.qname), msg, key="R1|%s|%s|%s" % (name, wf.qname, rf.qname))
        if r is None and labels: label_check(P, R, name, wn, rn, kw.get("prefix"))
    # --- field definitions
    a, b = P.fn("frt_fis_write"), P.fn("frt_fis_read")
    fw = build(P, a, lambda k, f: k == ("arg", 1)); fr = build(P, b, lambda k, f: k[0] == "arg" and k[1] == 0)
    cmp("field definitions", a, fw, b, fr)
    # --- commit file
    sw = P.fn("frt_sis_write")
    k = stream_with(P, sw, ("u32", "u64"))
    if k is None: raise AnalysisBroken("commit writer's stream not found")
    nw = build(P, sw, sel_key(k))
    rd = [f for f in functions(P, lambda f: calls(P, f, "frt_fis_read")) if stream_with(P, f, ("u32", "u64"))]
    if not rd: raise AnalysisBroken("commit reader not found")
    for f in rd: cmp("commit file", sw, nw, f, build(P, f, sel_key(stream_with(P, f, ("u32", "u64")))))
    for f in functions(P, lambda f: f not in rd and not calls(P, f, "frt_fis_read") and stream_with(P, f, ("u32", "u64")) is not None
                       and any(i.op == "getelementptr" and "FindSegmentsFile" in str(P.field_of_gep(f, i)) for i in f.insts())
                       and any(fmt.PRIM_R.get(c.callee) for c in streams_of(P, f)[stream_with(P, f, ("u32", "u64"))])):
        cmp("commit file (version only)", sw, nw, f, build(P, f, sel_key(stream_with(P, f, ("u32", "u64")))), labels=False, prefix=True)
    # --- compound file directory
    a, b = P.fn("frt_cw_close"), P.fn("frt_open_cmpd_store")
    ka, kb = stream_with(P, a, ("string",)), stream_with(P, b, ("string",))
    cmp("compound directory", a, build(P, a, sel_key(ka), ignore=NB, stop_seek=True), b, build(P, b, sel_key(kb), ignore=NB))
    # --- deletions
    dw_ = functions(P, lambda f: any(opens(P, f, c, "new_output") for c in P.calls[f.qname]) and bits_stream(P, f, True))
    dr_ = functions(P, lambda f: any(opens(P, f, c, "open_input") for c in P.calls[f.qname]) and bits_stream(P, f, False))
    for a in dw_:
        for b in dr_:
            for x in bits_stream(P, a, True):
                for y in bits_stream(P, b, False):
                    cmp("deletions", a, build(P, a, sel_key(x)), b, build(P, b, sel_key(y)))
    # --- term dictionary: fields
    o, s, c = P.fn("frt_tiw_open"), P.fn("frt_tiw_start_field"), P.fn("frt_tiw_close")
    r = P.fn("frt_sfi_open")
    st = sel_field("FrtTermInfosWriter.tfx_out")
    W = concat([(build(P, o, st), False), (build(P, s, st), True), (build(P, c, st, stop_seek=True), False)])
    cmp("term dictionary fields", s, W, r, build(P, r, sel_key(stream_with(P, r, ("u32", "voff")))), labels=False)
    # --- term dictionary: terms
    a = P.fn("frt_tiw_add")
    G = {"FrtTermInfo.doc_freq"}
    tis = build(P, a, sel_path("FrtTermInfosWriter.tis_writer", "FrtTermWriter.os"), guards=G)
    tix = build(P, a, sel_path("FrtTermInfosWriter.tix_writer", "FrtTermWriter.os"), guards=G)
    rsel = sel_field("FrtSegmentTermEnum.is")
    rn = [P.funcs[q] for q in sorted(P.slots.get("FrtTermEnum.next", ())) if any(rsel(k, None) for k in streams_of(P, P.funcs[q]))]
    if not rn: raise AnalysisBroken("segment term enumerator not found")
    for f in rn:
        N = build(P, f, rsel, guards=G)
        cmp("terms", a, tis, f, N)
        cmp("index terms", a, tix, f, concat([(fmt.nonempty(N), False), (word("voff"), False)]), labels=False)
    # --- stored fields
    a = P.fn("frt_fw_add_doc"); t = P.fn("frt_fw_write_tv_index"); pst = P.fn("frt_fw_add_postings")
    fdt, fdx = sel_field("FrtFieldsWriter.fdt_out"), sel_field("FrtFieldsWriter.fdx_out")
    rdt, rdx = sel_field("FrtFieldsReader.fdt_in"), sel_field("FrtFieldsReader.fdx_in")
    Wd = build(P, a, fdt, ignore=NB)
    Wx = concat([(build(P, a, fdx), False), (build(P, t, fdx), False)])
    for nm in ("frt_fr_get_doc", "frt_fr_get_lazy_doc"):
        if not P.has(nm): continue
        f = P.fn(nm)
        cmp("stored fields", a, concat([(word("#"), False), (Wd, False)]), f, build(P, f, rdt, ignore=NB), labels=False)
        cmp("document index", a, concat([(word("#"), False), (Wx, False)]), f, build(P, f, rdx), labels=False, prefix=True)
    # --- term vectors
    GB = {"FrtFieldInfo.bits"}
    TV = build(P, pst, fdt, guards=GB)
    IX = build(P, t, fdt)
    f = P.fn("frt_fr_get_tv")
    cmp("term vectors", pst, concat([(word("#"), False), (IX, False), (word("#"), False), (TV, True)]), f, build(P, f, rdt, guards=GB), labels=False)
    cmp("document index", t, concat([(word("#"), False), (Wx, False)]), f, build(P, f, rdx), labels=False)
    f = P.fn("frt_fr_get_field_tv")
    cmp("term vector of a field", pst, union(concat([(word("#"), False), (IX, False)]), concat([(word("#"), False), (IX, False), (word("#"), False), (TV, False)])),
        f, build(P, f, rdt, guards=GB), labels=False)
    cmp("document index", t, concat([(word("#"), False), (Wx, False)]), f, build(P, f, rdx), labels=False)
    # --- postings
    ws = []; rs = []
    for f in functions(P, lambda f: True):
        S = sym(P, f)
        for k, cs in streams_of(P, f).items():
            if any(x.callee == "frt_os_write_vint" and fmt.parity_of(S, x.ops[1]) == "odd" for x in cs): ws.append((f, k))
            elif any(x.callee == "frt_is_read_vint" and tests_bit(f, S, x) for x in cs): rs.append((f, k))
    one = union(word("vint", "odd"), word("vint", "even", "vint"))
    for f, k in ws:
        N = build(P, f, sel_key(k), parity=True, ignore=NB + ("#",))
        cmp("postings", f, N, f, concat([(one, True)]), labels=False)
    for f, k in rs:
        N = build(P, f, sel_key(k), parity=True, ignore=NB + ("#",))
        cmp("postings", f, concat([(one, True)]), f, N, labels=False)

def counts(P, R):
    per = {}
    for f in functions(P, lambda f: True):
        for k, cs in streams_of(P, f).items():
            sel = sel_key(k)
            rp = fmt.repeats(P, f, sel)
            if not rp: continue
            bad = fmt.counted(P, f, sel)
            for form, line, skips, h in rp:
                b = [m for l, m in bad if l == line]
                if form is None and not b: continue
                R.analyse(f)
                R.check("R5", not b, "%s:%s" % (f.file, line), f.qname, "%s: %s rounds" % (f.qname, "as many" if form == "V+0" else "computed"),
                        "the loop %s" % (b[0] if b else ""), key="R5|%s|%s" % (f.qname, k[-1] if isinstance(k[-1], str) else "stream"))
            per[(f.qname, k)] = rp
    # every number of rounds that is not simply the value itself must be the same on both sides
    W = {}; Rd = {}
    for (q, k), rp in per.items():
        f = P.funcs[q]
        side = W if any(c.callee in fmt.PRIM_W for c in streams_of(P, f)[k]) else Rd
        for form, line, skips, h in rp:
            if form is not None and form != "V+0": side.setdefault(form, (f, line))
    for a, b, n in ((W, Rd, "written"), (Rd, W, "read")):
        for form, (f, line) in sorted(a.items()):
            R.check("R5", form in b, "%s:%s" % (f.file, line), f.qname, "%s: the same computed number of rounds on both sides" % f.qname,
                    "a part is %s a number of times that no loop on the other side has" % n, key="R5|form|%s" % f.qname)

def through(a):
    """a value looked up in a table stands for its index"""
    if a[0] == "ld" and a[1][0] == "at":
        ats, c = a[1][2]
        if len(ats) == 1 and ats[0][1] == 1 and c == 0: return ats[0][0]
    return a

def copies(P, R):
    """values read from one stream and written straight on to another"""
    for f in functions(P, lambda f: True):
        S = sym(P, f); last = {}
        rd = {S.key(c.res): c for c in P.calls[f.qname] if c.extra == "direct" and c.callee in fmt.PRIM_R and c.res and fmt.PRIM_R[c.callee] in fmt.NUM}
        if not rd: continue
        order = {id(i): n for n, i in enumerate(f.insts())}
        for c in P.calls[f.qname]:
            if c.extra != "direct" or c.callee not in fmt.PRIM_W or fmt.PRIM_W[c.callee] not in fmt.NUM: continue
            l = S.lin(c.ops[1])
            src = [rd[y] for y in map(through, l[0]) if y in rd]
            if len(src) != 1 or len(l[0]) != 1 or list(l[0].values()) != [1]: continue
            s = src[0]; R.analyse(f)
            m = None
            if l[1]: m = "writes the value it read changed by %d" % l[1]
            elif fmt.PRIM_R[s.callee] != fmt.PRIM_W[c.callee]: m = "writes as %s what it read as %s" % (fmt.PRIM_W[c.callee], fmt.PRIM_R[s.callee])
            else:
                k = (c.bb.name, S.key(c.ops[0]), S.key(s.ops[0]))
                if k in last and last[k] > order[id(s)]: m = "writes two values in the opposite order of reading them"
                last[k] = order[id(s)]
            R.check("R6", m is None, "%s:%s" % (f.file, c.line), f.qname, "%s read and written" % fmt.PRIM_W[c.callee], m, key="R6|%s|%s" % (f.qname, c.line - f.line))

def opens(P, f, c, which): return c.extra != "direct" and P.slot(c) == "FrtStore." + which

def bits_stream(P, f, write):
    """streams to / from which the words of a bit vector go"""
    S = sym(P, f); out = []
    for k, cs in streams_of(P, f).items():
        for c in cs:
            if write and c.callee == "frt_os_write_u32" and "FrtBitVector.bits" in fields_in(S.key(c.ops[1])): out.append(k); break
            if not write and c.callee == "frt_is_read_u32" and any(u.op == "store" and "FrtBitVector.bits" in fields_in(S.key(u.ops[1])) for u in f.users(c.res)): out.append(k); break
    return out

def tests_bit(f, S, c):
    return any(u.op == "and" and "1" in u.ops for u in f.users(c.res))

# ---------------------------------------------------------------- fields
def wlabel(P, c):
    """where the written value comes from"""
    f = c.fn; S = sym(P, f)
    if len(c.ops) < 2 or fmt.PRIM_W.get(c.callee) in (None, "#", "bytes"): return None
    v = S.strip0(c.ops[1]); d = f.defs.get(v)
    k = S.key(v)
    if d is not None and d.op == "sub":
        a = fields_in(S.key(d.ops[0])); b = fields_in(S.key(d.ops[1]))
        if a and b and a[0] == b[0] and S.key(d.ops[0])[0] == "ld": return ("delta", a[0])
        return None
    if k[0] == "ld":
        fl = fields_in(k)
        if fl: return ("field", fl[0]) + direction(S, f, k)
    return None

def rlabel(P, c):
    f = c.fn; S = sym(P, f)
    if c.res is None: return None
    seen = set(); wk = [(c.res, "field")]
    while wk:
        v, how = wk.pop()
        if v in seen: continue
        seen.add(v)
        for u in f.users(v):
            if u.op in ("zext", "sext", "trunc", "freeze"): wk.append((u.res, how))
            elif u.op == "add" and how == "field":
                o = [x for x in u.ops if x != v]
                if o and S.key(o[0])[0] == "ld" and fields_in(S.key(o[0])): wk.append((u.res, "delta"))
            elif u.op == "store" and u.ops[0] == v:
                k = S.key(u.ops[1])
                fl = fields_in(k)
                if fl: return (how, fl[0]) + (direction(S, f, k) if how == "field" else ())
                return None
            elif u.op == "call" and u.callee in ("frt_intern_and_free", "frt_intern") and u.res: wk.append((u.res, how))
            elif u.op == "call" and u.extra == "direct":
                t = P.lookup(f.mod, u.callee)
                if t is None: continue
                for n, o in enumerate(u.ops):
                    if o != v or n >= len(t.args): continue
                    fl = param_field(P, t, n)
                    if fl: return (how, fl)
    return None

def param_field(P, t, n):
    """the only field the function keeps its n-th parameter in"""
    out = set(); w = [t.args[n]]; seen = set()
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        for u in t.users(x):
            if u.op in ("zext", "sext", "trunc", "freeze"): w.append(u.res)
            elif u.op == "store" and u.ops[0] == x:
                fa = P.field_addr(t, u.ops[1])
                if fa: out.add(fa)
    return next(iter(out)) if len(out) == 1 else None

def direction(S, f, k):
    """for an array element indexed by a loop counter: which way the counter runs"""
    while isinstance(k, tuple) and k[0] in ("ld", "fld"): k = k[1]
    if k[0] == "at":
        terms = dict(k[2][0])
        for t, c in terms.items():
            if t[0] == "phi":
                d = f.defs.get(t[1])
                for o in d.ops:
                    x = f.defs.get(S.strip0(o))
                    if x is not None and x.op in ("add", "sub") and S.strip0(x.ops[0]) == t[1] and re.match(r'^-?\d+$', x.ops[1]):
                        s = int(x.ops[1]) * (1 if x.op == "add" else -1) * c
                        return ("up" if s > 0 else "down",)
    return ()

EQUIV = {("FrtFieldInfos.size", "FrtFieldInfos.size")}

def label_check(P, R, name, wn, rn, prefix):
    if prefix: return
    al = fmt.aligned(wn, rn)
    for s1, rs in sorted(al.items(), key=lambda x: (x[0].fn.qname, x[0].uid)):
        l1 = wlabel(P, s1)
        if l1 is None: continue
        ls = [rlabel(P, s) for s in rs]
        if any(l is None or l[1].split(".")[0] != l1[1].split(".")[0] for l in ls) or not ls: continue    # kept in another type: not comparable
        if any(len(l) < 3 for l in ls + [l1]): l1 = l1[:2]; ls = [l[:2] for l in ls]
        R.check("R2", l1 in ls, "%s:%s" % (s1.fn.file, s1.line), s1.fn.qname, "%s: %s read back into the same field" % (name, l1[1]),
                "%s: %s (%s) is written here but read back as %s" % (name, l1[1], l1[0] if len(l1) < 3 else "index runs " + l1[2],
                                                                   ", ".join("%s (%s)" % (l[1], l[0] if len(l) < 3 else "index runs " + l[2]) for l in ls)),
                key="R2|%s|%s|%s" % (name, s1.fn.qname, l1[1]))

# ---------------------------------------------------------------- encodings
def fixed(P, R):
    for a, b in (("i32", "i32"), ("u32", "u32"), ("i64", "i64"), ("u64", "u64"), ("i64", "u64"), ("u64", "i64"), ("i32", "u32"), ("u32", "i32")):
        wn, rn = "frt_os_write_" + a, "frt_is_read_" + b
        if not P.has(wn) or not P.has(rn): continue
        f, g = P.fn(wn), P.fn(rn)
        x, y = wshifts(P, f), rshifts(P, g)
        R.analyse(f, g)
        if x is None or y is None: continue      # another way of writing it (delegated, looped): out of this rule's reach
        R.check("R3", x == y and sorted(x) == list(range(0, 8 * len(x), 8)), w(f), f.qname, "bytes %s" % (x,), "writes bytes with shifts %s, %s puts them together with shifts %s" % (x, rn, y),
                key="R3|%s|%s" % (wn, rn))

def order_calls(P, f, names):
    if len([b for b in f.order]) > 40: return None
    # straight-line order (single path): follow unconditional flow; refuse loops
    S = sym(P, f)
    if S.loops(): return None
    cs = [c for c in P.calls[f.qname] if c.extra == "direct" and c.callee in names]
    return cs

def wshifts(P, f):
    """shift of each byte written, in order; bytes stored directly into the buffer after inlining count too"""
    S = sym(P, f)
    if S.loops(): return None
    out = []
    for bn in f.order:
        for i in f.blocks[bn].insts:
            v = None
            if i.op == "call" and i.extra == "direct" and i.callee in ("frt_os_write_byte",): v = i.ops[1]
            elif i.op == "store" and "FrtBuffer.buf" in fields_in(S.key(i.ops[1])): v = i.ops[0]
            if v is None: continue
            d = f.defs.get(v)
            while d is not None and (d.op in ("trunc", "zext", "sext") or (d.op == "and" and d.ops[1] == "255")): v = d.ops[0]; d = f.defs.get(v)
            if v in f.args: out.append(0)
            elif d is not None and d.op in ("lshr", "ashr") and d.ops[0] in f.args and d.ops[1].isdigit(): out.append(int(d.ops[1]))
            else: return None
    return out or None

def rshifts(P, f):
    S = sym(P, f)
    if S.loops(): return None
    out = []
    for bn in f.order:
        for i in f.blocks[bn].insts:
            if i.op == "call" and i.extra == "direct" and i.callee == "frt_is_read_byte":
                v = i.res; sh = 0
                while True:
                    us = f.users(v)
                    if len(us) != 1: return None
                    u = us[0]
                    if u.op in ("zext", "sext", "trunc"): v = u.res; continue
                    if u.op == "shl" and u.ops[0] == v and u.ops[1].isdigit(): sh += int(u.ops[1]); v = u.res; continue
                    break
                out.append(sh)
    return out or None

def consts(f, op): return {int(i.ops[1]) for i in f.insts() if i.op == op and isinstance(i.ops[1], str) and re.match(r'^-?\d+$', i.ops[1])}

def varlen(P, R):
    for t in ("vint", "voff_t", "vll"):
        f, g = P.fn("frt_os_write_" + t, False), P.fn("frt_is_read_" + t, False)
        if f is None or g is None: continue
        R.analyse(f, g)
        # writer: low 7 bits, continuation bit 128, shift by 7, loop while value > 127
        sh = consts(f, "lshr") | consts(f, "ashr"); an = {x & 255 for x in consts(f, "and")} - {255}; orr = {x & 255 for x in consts(f, "or")}
        orr |= {int(o) & 255 for i in f.insts() if i.op in ("select", "phi") for o in i.ops if re.match(r'^-?\d+$', str(o)) and any(u.op in ("or", "trunc", "zext", "sext") for u in f.users(i.res))} - {0}
        lim = {int(i.ops[1]) if i.extra in ("ugt", "sgt") else int(i.ops[1]) - 1 for i in f.insts() if i.op == "icmp" and i.extra in ("ugt", "sgt", "uge", "sge") and re.match(r'^\d+$', i.ops[1])
               and feeds_loop(P, f, i)}
        okw = sh == {7} and an <= {127} and orr == {128} and lim <= {127} 
        R.check("R4", okw, w(f), f.qname, "7-bit groups, continuation bit 128", "encodes with shifts %s, masks %s, continuation %s, limits %s" % (sorted(sh), sorted(an), sorted(orr), sorted(lim)), key="R4|w|" + t)
        last = lastbyte(P, f)
        R.check("R4", last == {"end"}, w(f), f.qname, "the last byte written has no continuation bit, on every path",
                "a path %s" % ("writes nothing" if "none" in last else "ends with a byte that says another one follows"), key="R4|last|" + t)
        an = {x & 255 for x in consts(g, "and")} - {255}
        stepc = set()
        for i in g.insts():
            if i.op == "add" and re.match(r'^\d+$', i.ops[1]) and any(u.op in ("shl", "zext", "sext", "phi") for u in g.users(i.res)) and g.defs.get(i.ops[0]) is not None and g.defs[i.ops[0]].op == "phi" \
               and any(x.op == "shl" or (x.op in ("zext", "sext") and any(y.op == "shl" and y.ops[1] == x.res for y in g.users(x.res))) for x in g.users(i.ops[0])):
                stepc.add(int(i.ops[1]))
        init = set()
        for i in g.insts():
            if i.op == "phi" and any(x.op == "shl" and x.ops[1] == i.res or (x.op in ("zext", "sext") and any(y.op == "shl" and y.ops[1] == x.res for y in g.users(x.res))) for x in g.users(i.res)):
                init |= {int(o) for o in i.ops if re.match(r'^\d+$', o)}
        okr = an <= {127, 128} and 128 in an and stepc <= {7} and init <= {7, 0}
        R.check("R4", okr, w(g), g.qname, "7-bit groups, continuation bit 128", "decodes with masks %s, shift steps %s from %s" % (sorted(an), sorted(stepc), sorted(init)), key="R4|r|" + t)

def lastbyte(P, f):
    """what the last byte written before a return can be: none, one with the continuation bit set, or the end"""
    def more(v, n=0):
        d = f.defs.get(v)
        if d is None or n > 6: return False
        if d.op == "or": return any(re.match(r'^-?\d+$', str(o)) and int(o) & 128 for o in d.ops) or any(more(o, n + 1) for o in d.ops if isinstance(o, str))
        return d.op in ("trunc", "zext", "sext", "freeze") and more(d.ops[0], n + 1)
    inn = {f.order[0]: {"none"}}; work = [f.order[0]]; out = set()
    while work:
        b = work.pop(); st = set(inn[b])
        for i in f.blocks[b].insts:
            v = i.ops[1] if i.op == "call" and i.callee == "frt_os_write_byte" else i.ops[0] if i.op == "store" and i.ty == "i8" else None
            if v is not None: st = {"more" if more(v) else "end"}
            if i.op == "ret": out |= st
        for x in f.blocks[b].succs:
            new = inn.get(x, set()) | st
            if new != inn.get(x): inn[x] = new; work.append(x)
    return out

def feeds_loop(P, f, i):
    S = sym(P, f)
    bn = i.bb.name if hasattr(i.bb, "name") else i.bb
    return any(bn == h or bn in body for h, body in S.loops().items())
