"""A small reader for textual LLVM-18 IR (opaque pointers)."""
import re

def split_top(s, sep=","):
    out, depth, cur, q = [], 0, [], False
    for ch in s:
        if q:
            cur.append(ch)
            if ch == '"': q = False
            continue
        if ch == '"':
            q = True; cur.append(ch); continue
        if ch in "([{<": depth += 1
        elif ch in ")]}>": depth -= 1
        if ch == sep and depth == 0:
            out.append("".join(cur).strip()); cur = []
        else:
            cur.append(ch)
    t = "".join(cur).strip()
    if t or out: out.append(t)
    return out

_ATTR = {"noundef", "signext", "zeroext", "nonnull", "noalias", "nocapture", "inreg", "returned",
         "readonly", "writeonly", "immarg", "byval", "sret", "dso_local", "inbounds", "nsw", "nuw",
         "exact", "volatile", "tail", "musttail", "notail", "fastcc", "ccc", "nnan", "ninf", "nsz",
         "arcp", "contract", "reassoc", "afn", "fast", "allocptr", "swiftself", "readnone", "nneg", "disjoint"}

def take_type(s):
    """Split a leading type off s -> (type, rest)."""
    s = s.lstrip()
    if s[0] in "[<{":
        depth = 0
        for i, ch in enumerate(s):
            if ch in "[<{(": depth += 1
            elif ch in "]>})":
                depth -= 1
                if depth == 0:
                    i += 1; break
        t, r = s[:i], s[i:]
    else:
        m = re.match(r'%"[^"]*"|[%\w.\-$]+', s)
        t, r = m.group(0), s[m.end():]
    # function types:  void (i32, ...)
    r2 = r.lstrip()
    if r2.startswith("(") :
        depth = 0
        for i, ch in enumerate(r2):
            if ch == "(": depth += 1
            elif ch == ")":
                depth -= 1
                if depth == 0: break
        after = r2[i+1:].lstrip()
        if after[:1] in "@%" or after.startswith("asm"):
            return t + r2[:i+1], after
    return t, r.lstrip()

def strip_attrs(s):
    s = s.strip()
    while True:
        m = re.match(r'([a-z_]+)(\([^()]*\))?\s+', s)
        if m and (m.group(1) in _ATTR or m.group(1) in ("align", "dereferenceable", "dereferenceable_or_null", "elementtype", "range", "memory")):
            if m.group(1) == "align" and m.group(2) is None:
                m = re.match(r'align \d+\s*', s)
            s = s[m.end():]
        else:
            return s

class Inst:
    __slots__ = ("op", "res", "ty", "ops", "fn", "bb", "idx", "line", "extra", "raw", "callee", "volatile", "uid", "dbgid", "tyops")
    def __init__(self):
        self.res = None; self.ty = None; self.ops = []; self.line = 0; self.extra = None
        self.callee = None; self.volatile = False; self.dbgid = None; self.tyops = None
    def __repr__(self):
        return "<%s:%d %s>" % (self.fn.name if self.fn else "?", self.line, self.raw.strip()[:100])
    @property
    def where(self):
        return "%s:%d" % (self.fn.file, self.line)

class Block:
    __slots__ = ("name", "insts", "fn", "succs", "preds", "term")
    def __init__(self, name, fn):
        self.name = name; self.fn = fn; self.insts = []; self.succs = []; self.preds = []; self.term = None
    def __repr__(self): return "<bb %s/%s>" % (self.fn.name, self.name)

class Function:
    def __init__(self):
        self.name = None; self.internal = False; self.args = []; self.argtys = []; self.ret = None
        self.blocks = {}; self.order = []; self.defs = {}; self.file = None; self.line = 0
        self.mod = None; self.uses = None; self.varnames = {}; self.attrs = ""; self.vararg = False
    def __repr__(self): return "<fn %s>" % self.name
    @property
    def entry(self): return self.blocks[self.order[0]]
    def insts(self):
        for b in self.order:
            for i in self.blocks[b].insts:
                yield i
    def users(self, v):
        if self.uses is None:
            u = {}
            for i in self.insts():
                for o in i.ops:
                    if isinstance(o, str):
                        u.setdefault(o, []).append(i)
                if i.op == "call" and i.callee and i.callee.startswith("%"):
                    u.setdefault(i.callee, []).append(i)
            self.uses = u
        return self.uses.get(v, [])

class Module:
    def __init__(self, src):
        self.src = src; self.structs = {}; self.funcs = {}; self.globals = {}; self.meta = {}
        self.fields = {}; self.decls = {}

_re_meta = re.compile(r'^!(\d+) = (?:distinct )?(.*)$')
_re_def = re.compile(r'^define\b')
_re_lab = re.compile(r'^("?[\w.$\-]+"?):')
_re_dbg = re.compile(r', !dbg !(\d+)')

def parse(path, src, repo):
    m = Module(src)
    rel = src[len(repo)+1:] if src.startswith(repo + "/") else src
    m.rel = rel
    metas = {}
    with open(path) as f:
        lines = f.read().split("\n")
    i, n = 0, len(lines)
    raws = []
    while i < n:
        l = lines[i]
        if l.startswith("%") and " = type " in l:
            nm, t = l.split(" = type ", 1)
            m.structs[nm.strip().lstrip("%").strip('"')] = t.strip()
        elif l.startswith("@"):
            mm = re.match(r'^@("[^"]+"|[\w.$]+) = (.*)$', l)
            if mm: m.globals[mm.group(1).strip('"')] = mm.group(2)
        elif l.startswith("!"):
            mm = _re_meta.match(l)
            if mm: metas[mm.group(1)] = mm.group(2)
        elif l.startswith("declare"):
            mm = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
            if mm: m.decls[mm.group(1)] = l
        elif _re_def.match(l):
            j = i + 1
            while lines[j] != "}": j += 1
            raws.append((l, lines[i+1:j])); i = j
        i += 1
    m.meta = metas
    _resolve_structs(m)
    for hdr, body in raws:
        fn = _parse_fn(m, hdr, body, rel)
        m.funcs[fn.name] = fn
    return m

# ---------------------------------------------------------------- metadata
def _mfield(s, key):
    mm = re.search(r'\b%s: (?:!(\d+)|"([^"]*)"|([\w|]+))' % key, s)
    if not mm: return None
    return mm.group(1) or mm.group(2) or mm.group(3)

def sizeof(m, t):
    return layout(m, t)[0]

def layout(m, t):
    """-> (size, align)"""
    t = t.strip()
    if t in ("ptr", "i64", "double"): return 8, 8
    if t in ("i32", "float"): return 4, 4
    if t == "i16": return 2, 2
    if t in ("i8", "i1"): return 1, 1
    if t in ("i128", "fp128", "x86_fp80"): return 16, 16
    if t.startswith("["):
        mm = re.match(r'\[(\d+) x (.*)\]$', t)
        s, a = layout(m, mm.group(2)); return int(mm.group(1)) * s, a
    if t.startswith("%"):
        nm = t.lstrip("%").strip('"')
        body = m.structs.get(nm, "opaque")
        if body == "opaque": return 0, 1
        return layout(m, body)
    if t.startswith("<{"):
        s = 0
        for e in split_top(t[2:-2]):
            s += layout(m, e)[0]
        return s, 1
    if t.startswith("{"):
        s, al = 0, 1
        for e in split_top(t[1:-1]):
            es, ea = layout(m, e)
            s = (s + ea - 1) // ea * ea + es; al = max(al, ea)
        return (s + al - 1) // al * al, al
    if t.startswith("<"):
        mm = re.match(r'<(\d+) x (.*)>$', t)
        s, a = layout(m, mm.group(2)); return int(mm.group(1)) * s, int(mm.group(1)) * s
    return 8, 8

def elem_offsets(m, body):
    if body.startswith("<{"):
        es, off, s = split_top(body[2:-2]), [], 0
        for e in es:
            off.append((s, e)); s += layout(m, e)[0]
        return off
    es, off, s = split_top(body[1:-1]), [], 0
    for e in es:
        z, a = layout(m, e)
        s = (s + a - 1) // a * a
        off.append((s, e)); s += z
    return off

def _resolve_structs(m):
    comp = {}
    td = {}
    for k, v in m.meta.items():
        if v.startswith("!DICompositeType(tag: DW_TAG_structure_type"):
            nm = _mfield(v, "name"); el = _mfield(v, "elements")
            if el: comp[k] = (nm, el, v)
        elif v.startswith("!DIDerivedType(tag: DW_TAG_typedef"):
            td[_mfield(v, "baseType")] = _mfield(v, "name")
    byname = {}
    for k, (nm, el, v) in comp.items():
        name = nm or td.get(k)
        if not name: continue
        mem = []
        for r in re.findall(r'!(\d+)', m.meta.get(el, "")):
            mv = m.meta.get(r, "")
            if "DW_TAG_member" not in mv: continue
            off = _mfield(mv, "offset"); size = _mfield(mv, "size")
            bit = "DIFlagBitField" in mv
            mem.append((int(off or 0), int(size or 0), _mfield(mv, "name") or "", bit, _mfield(mv, "baseType")))
        byname[name] = mem
    m.di_members = byname
    for s, body in m.structs.items():
        if body == "opaque": continue
        key = re.sub(r'^(struct|union)\.', '', s)
        mem = byname.get(key) or byname.get(re.sub(r'\.\d+$', '', key))
        if mem is None: continue
        res = []
        try:
            offs = elem_offsets(m, body)
        except Exception:
            continue
        for (o, e) in offs:
            z = layout(m, e)[0]
            names = [x[2] for x in mem if o * 8 <= x[0] < (o + max(z, 1)) * 8]
            bits = [(x[0] - o * 8, x[1], x[2]) for x in mem if x[3] and o * 8 <= x[0] < (o + max(z, 1)) * 8]
            res.append(("|".join(names) if names else "pad%d" % o, e, bits))
        m.fields[s] = res

def di_type_name(m, ref, depth=0):
    """C-ish spelling of a DI type reference."""
    if ref is None or ref == "null": return "void"
    v = m.meta.get(ref, "")
    if depth > 12: return "?"
    nm = _mfield(v, "name")
    if v.startswith("!DIBasicType"): return nm
    if "DW_TAG_typedef" in v: return nm
    if "DW_TAG_pointer_type" in v: return di_type_name(m, _mfield(v, "baseType"), depth + 1) + "*"
    if "DW_TAG_const_type" in v or "DW_TAG_volatile_type" in v or "DW_TAG_restrict_type" in v:
        return di_type_name(m, _mfield(v, "baseType"), depth + 1)
    if "DW_TAG_structure_type" in v: return nm or "anon"
    if "DW_TAG_enumeration_type" in v: return nm or "enum"
    if "DW_TAG_union_type" in v: return nm or "union"
    if "DW_TAG_array_type" in v: return di_type_name(m, _mfield(v, "baseType"), depth + 1) + "[]"
    if "DISubroutineType" in v: return "fn"
    return nm or "?"

# ---------------------------------------------------------------- functions
def _parse_fn(m, hdr, body, rel):
    fn = Function(); fn.mod = m; fn.file = rel
    mm = re.search(r'@("[^"]+"|[\w.$]+)\(', hdr)
    fn.name = mm.group(1).strip('"')
    pre = hdr[:mm.start()]
    fn.internal = " internal " in pre
    p = mm.end(); d = 1; q = p
    while d:
        if hdr[q] == "(": d += 1
        elif hdr[q] == ")": d -= 1
        q += 1
    args = hdr[p:q-1]
    fn.attrs = hdr[q:]
    rt = strip_attrs(re.sub(r'^define\s+', '', pre))
    while True:
        r2 = re.sub(r'^(internal|dso_local|hidden|linkonce_odr|available_externally|weak|private|local_unnamed_addr|unnamed_addr)\s+', '', rt)
        if r2 == rt: break
        rt = strip_attrs(r2)
    fn.ret = rt.strip()
    for a in split_top(args):
        if not a: continue
        if a == "...":
            fn.vararg = True; continue
        t, r = take_type(a)
        r = strip_attrs(r + " ").strip()
        fn.args.append(r); fn.argtys.append(t)
    sp = re.search(r'!dbg !(\d+)', hdr)
    if sp:
        v = m.meta.get(sp.group(1), "")
        ln = re.search(r'\bline: (\d+)', v)
        fn.line = int(ln.group(1)) if ln else 0
        fn.dbg = sp.group(1)
        fref = _mfield(v, "file")
        fv = m.meta.get(fref, "")
        fname = _mfield(fv, "filename")
        if fname and fname.endswith(".h"):
            fn.file = "c/include/" + fname.split("/")[-1] if "include" in fname or "/" not in fname else fname
    cur = None
    k = 0
    i = 0
    while i < len(body):
        l = body[i]; i += 1
        if not l: continue
        if not l.startswith(" "):
            lm = _re_lab.match(l)
            if lm:
                cur = Block(lm.group(1).strip('"'), fn); fn.blocks[cur.name] = cur; fn.order.append(cur.name)
            continue
        s = l.strip()
        if s.startswith("switch") and s.endswith("["):
            while not body[i].strip().startswith("]"):
                s += " " + body[i].strip(); i += 1
            s += " " + body[i].strip(); i += 1
        if s.startswith("#dbg"): continue
        if cur is None:
            # unnamed entry block
            cur = Block("entry$", fn); fn.blocks[cur.name] = cur; fn.order.append(cur.name)
        ins = _parse_inst(m, fn, s)
        if ins is None: continue
        ins.fn = fn; ins.bb = cur; ins.idx = len(cur.insts); ins.uid = k; k += 1
        cur.insts.append(ins)
        if ins.res: fn.defs[ins.res] = ins
    for b in fn.order:
        bl = fn.blocks[b]
        t = bl.insts[-1] if bl.insts else None
        bl.term = t
        if t is not None:
            if t.op == "br": bl.succs = list(dict.fromkeys(t.extra))
            elif t.op == "switch": bl.succs = list(dict.fromkeys([t.extra[0]] + [x[1] for x in t.extra[1]]))
            else: bl.succs = []
    for b in fn.order:
        for s in fn.blocks[b].succs:
            fn.blocks[s].preds.append(b)
    return fn

def _clean_val(s):
    return strip_attrs(s.strip() + " ").strip()

_CASTS = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "freeze"}

def _parse_inst(m, fn, s):
    raw = s
    dbg = None
    mm = _re_dbg.search(s)
    if mm: dbg = mm.group(1)
    # strip metadata tail
    cut = re.search(r', ![a-z]', s)
    if cut and not ("@llvm.dbg" in s):
        s = s[:cut.start()]
    ins = Inst(); ins.raw = raw; ins.dbgid = dbg
    if dbg:
        v = m.meta.get(dbg, "")
        ln = re.search(r'\bline: (\d+)', v)
        ins.line = int(ln.group(1)) if ln else 0
    mm = re.match(r'(%"[^"]+"|%[\w.$\-]+) = ', s)
    if mm:
        ins.res = mm.group(1); s = s[mm.end():]
    if "@llvm.dbg.declare" in s or "@llvm.dbg.value" in s:
        x = re.search(r'metadata \S+ (%"[^"]+"|%[\w.$\-]+|[^,]+), metadata !(\d+)', s)
        if x:
            nm = _mfield(m.meta.get(x.group(2), ""), "name")
            if nm and x.group(1).startswith("%"): fn.varnames.setdefault(x.group(1), nm)
            if "@llvm.dbg.declare" in s and x.group(1).startswith("%"):
                fn.varnames[x.group(1)] = nm
        return None
    w = s.split(" ", 1)[0]
    if w in ("tail", "musttail", "notail"):
        s = s.split(" ", 1)[1]; w = "call"
    ins.op = w
    rest = s[len(w):].strip()
    if w == "call":
        # call [fastmath] [cc] [retattrs] ty fnptr(args) attrs
        r = strip_attrs(rest)
        while re.match(r'(noalias|zeroext|signext|nonnull|noundef)\b', r): r = r.split(" ", 1)[1]
        t, r = take_type(r)
        ins.ty = t.split("(")[0].strip() if "(" in t and not t.startswith("{") else t
        if r.startswith("asm"):
            ins.callee = "asm"; return ins
        if r.startswith("("):   # vararg function type not followed by @ (handled) - constant expr callee
            pass
        mm = re.match(r'(@"[^"]+"|@[\w.$]+|%"[^"]+"|%[\w.$\-]+)\(', r)
        if not mm:
            ins.callee = "?"; return ins
        ins.callee = mm.group(1)
        if ins.callee.startswith("@"): ins.callee = ins.callee[1:].strip('"'); ins.extra = "direct"
        else: ins.extra = "indirect"
        p = mm.end(); d = 1; q = p; inq = False
        while d:
            ch = r[q]
            if ch == '"': inq = not inq
            elif not inq:
                if ch == "(": d += 1
                elif ch == ")": d -= 1
            q += 1
        tys = []
        for a in split_top(r[p:q-1]):
            if not a: continue
            if a.startswith("metadata"):
                ins.ops.append(a); tys.append("metadata"); continue
            t, v = take_type(a)
            ins.ops.append(_clean_val(v)); tys.append(t)
        ins.tyops = tys
        return ins
    if w == "load":
        if rest.startswith("volatile "): ins.volatile = True; rest = rest[9:]
        parts = split_top(rest)
        ins.ty = parts[0]
        ins.ops = [_clean_val(take_type(parts[1])[1])]
        return ins
    if w == "store":
        if rest.startswith("volatile "): ins.volatile = True; rest = rest[9:]
        parts = split_top(rest)
        t, v = take_type(parts[0])
        ins.ty = t
        ins.ops = [_clean_val(v), _clean_val(take_type(parts[1])[1])]
        return ins
    if w == "getelementptr":
        rest = strip_attrs(rest)
        parts = split_top(rest)
        ins.ty = parts[0]
        ins.ops = [_clean_val(take_type(p)[1]) for p in parts[1:]]
        return ins
    if w == "br":
        if rest.startswith("label"):
            ins.extra = [rest[6:].strip().lstrip("%").strip('"')]
        else:
            parts = split_top(rest)
            ins.ops = [take_type(parts[0])[1]]
            ins.extra = [p.strip()[6:].strip().lstrip("%").strip('"') for p in parts[1:3]]
        return ins
    if w == "switch":
        mm = re.match(r'(.*?), label %("[^"]+"|[\w.$\-]+) \[(.*)\]', rest)
        t, v = take_type(mm.group(1))
        ins.ops = [v]; ins.ty = t
        cases = []
        for cm in re.finditer(r'i\d+ (-?\d+|true|false), label %("[^"]+"|[\w.$\-]+)', mm.group(3)):
            cases.append((int(cm.group(1)) if cm.group(1) not in ("true", "false") else cm.group(1) == "true", cm.group(2).strip('"')))
        ins.extra = (mm.group(2).strip('"'), cases)
        return ins
    if w == "ret":
        if rest.startswith("void"): return ins
        t, v = take_type(rest); ins.ty = t; ins.ops = [_clean_val(v)]
        return ins
    if w == "phi":
        t, v = take_type(rest); ins.ty = t
        inc = re.findall(r'\[ (.*?), %("[^"]+"|[\w.$\-]+) \]', v)
        ins.extra = [(a.strip(), b.strip('"')) for a, b in inc]
        ins.ops = [a for a, b in ins.extra]
        return ins
    if w == "alloca":
        parts = split_top(rest); ins.ty = parts[0]
        return ins
    if w in ("icmp", "fcmp"):
        r = rest
        while True:
            pred, r = r.split(" ", 1)
            if pred not in _ATTR: break
        ins.extra = pred
        t, v = take_type(r); ins.ty = t
        ins.ops = [x.strip() for x in split_top(v)]
        return ins
    if w == "select":
        parts = split_top(strip_attrs(rest))
        ins.ops = [_clean_val(take_type(p)[1]) for p in parts]; ins.ty = take_type(parts[1])[0]
        return ins
    if w in _CASTS:
        r = strip_attrs(rest)
        mm = re.match(r'(.*) to (.*)$', r)
        if mm:
            t, v = take_type(mm.group(1)); ins.ops = [_clean_val(v)]; ins.extra = t; ins.ty = mm.group(2)
        else:
            t, v = take_type(r); ins.ops = [_clean_val(v)]; ins.ty = t
        return ins
    if w == "unreachable": return ins
    # binary / unary / extractvalue
    r = strip_attrs(rest)
    try:
        t, v = take_type(r)
        ins.ty = t; ins.ops = [x.strip() for x in split_top(v)]
    except Exception:
        pass
    return ins
