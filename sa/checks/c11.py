"""C11: deleted documents are never returned, merged or copied, and deletions are never lost."""
import collections
import live
from prog import Client, explore, RV

ENUM = "FrtSegmentTermDocEnum"
DOCNUM = ENUM + ".doc_num"
ADV = ("FrtTermDocEnum.next", "FrtTermDocEnum.skip_to")

def run(P, R):
    L = live.Live(P)
    R.rule("R1", "a posting-list operation that reports a document (next and skip_to returning true, read storing a number) does so only "
                 "after the document's deletion bit was found clear, or the segment found to have no deletions, since the position last moved", floor=2)
    R.rule("R2", "a scorer that produces document numbers itself (from a counter or a bit vector, not from postings or another scorer) "
                 "reports one only after the reader said it is not deleted", floor=2)
    R.rule("R3", "merging writes a document's stored fields, vectors or norms only after its deletion bit was found clear or the segment "
                 "found to have no deletions", floor=1)
    R.rule("R4", "fetching a document returns one only after its deletion bit was found clear", floor=2)
    R.rule("R5", "every posting enumerator of a segment is given that segment's deletions", floor=1)
    R.rule("R6", "opening a segment, for reading or merging, loads its deletions unless it has none", floor=1)
    R.rule("R8", "after a deletion, whatever was undeleted before, a commit of the segment writes its deletions under a new generation; after undeleting "
                 "everything it records that there are none", floor=1)
    R.rule("R7", "deleting a document sets its deletion bit and marks deletions and reader as changed; copying a segment into another index "
                 "writes its deletions too", floor=2)
    seg_enum(P, R, L); scorers(P, R, L); merging(P, R, L); fetching(P, R, L); wiring(P, R, L); recording(P, R, L); committing(P, R, L)
    R.assumption("Posting lists, bit vectors and document maps themselves hold the right numbers (not checked here).")
    R.assumption("A scorer that takes its document number from a posting enumerator or from another scorer is as live as its source.")

def writes_field(P, q, fld, seen=None):
    seen = set() if seen is None else seen
    if q in seen: return False
    seen.add(q)
    f = P.funcs[q]
    for i in f.insts():
        if i.op == "store" and P.field_addr(f, i.ops[1]) == fld: return True
    return any(writes_field(P, t.qname, fld, seen) for c in P.calls[q] if c.extra == "direct" for t in P.targets(c))

def seg_enum(P, R, L):
    adv_fns = set().union(*[P.slots.get(s, set()) for s in ADV])
    group = set()
    for s in ADV + ("FrtTermDocEnum.read",):
        for q in P.slots.get(s, ()):
            if writes_field(P, q, DOCNUM): group.add((q, s))
    memo = {}
    def summary(t):
        """status after a helper that moves the position, by result"""
        if t.qname in memo: return memo[t.qname]
        memo[t.qname] = "U"
        ends = run_fn(t)
        by = collections.defaultdict(set)
        for k, st, i in ends: by[None if k is None else int(bool(k))].add(st[0])
        if t.ret in ("i1", "i8", "i32") and None not in by and by:
            memo[t.qname] = {b: ("L" if by[b] == {"L"} else "U") for b in (0, 1)}
        else:
            s = set().union(*by.values()) if by else {"U"}
            memo[t.qname] = "L" if s == {"L"} else "U"
        return memo[t.qname]
    def advance_of(f):
        def advance(i):
            if i.op == "store" and P.field_addr(f, i.ops[1]) == DOCNUM: return "U"
            if i.op == "call":
                s = P.slot(i) if i.extra != "direct" else None
                if s in ADV: return {1: "L", 0: "U"}
                if i.extra == "direct":
                    t = P.lookup(f.mod, i.callee)
                    if t is not None:
                        if t.qname in adv_fns: return {1: "L", 0: "U"}
                        if writes_field(P, t.qname, DOCNUM): return summary(t)
            return None
        return advance
    def run_fn(f):
        ends = []
        cl = live.LiveClient(L, f, advance_of(f))
        def done(k, st, i):
            if k == "ret": ends.append((cl.exit_k, st, i))
        explore(P, f, ("U", frozenset()), cl, on_exit=done)
        return ends
    for q, s in sorted(group):
        f = P.funcs[q]; R.analyse(f)
        if s in ADV:
            bad = None
            for k, st, i in run_fn(f):
                if k == 0 or st[0] == "L": continue
                if k is None:
                    # returns the verdict of another advancing call, or of the deletion test itself
                    d = f.defs.get(i.ops[0]) if i.ops and i.ops[0] else None
                    while d is not None and d.op in ("zext", "trunc", "sext", "freeze"): d = f.defs.get(d.ops[0])
                    if d is not None and d.op == "call" and ((d.extra != "direct" and P.slot(d) in ADV) or any(t.qname in adv_fns for t in P.targets(d))): continue
                    if L.truth(f, i.ops[0], st[1]) in ("!del", "null"): continue
                bad = i
            R.check("R1", bad is None, "%s:%s" % (f.file, bad.line if bad else f.line), q, "%s reports only live documents" % s,
                    "can report a document whose deletion bit was not tested", key="R1|%s" % q)
        # numbers handed out through a caller's array, here or in helpers
        for g in [f] + [t for c in P.calls[q] if c.extra == "direct" for t in P.targets(c) if t.internal and writes_field(P, t.qname, DOCNUM)]:
            sites = [i for i in g.insts() if i.op == "store" and i.ty == "i32" and P.field_load(g, i.ops[0]) == DOCNUM
                     and P.expr(g, i.ops[1])[0] in ("index", "arg", "phi")]
            if not sites: continue
            bad = []
            adv = advance_of(g)
            class Cl(live.LiveClient):
                def step(self, i, st):
                    if i in sites and st[0] != "L": bad.append(i)
                    return live.LiveClient.step(self, i, st)
            explore(P, g, ("U", frozenset()), Cl(L, g, adv))
            for i in sites:
                R.check("R1", i not in bad, "%s:%s" % (g.file, i.line), g.qname, "hands out a live document's number",
                        "hands out the number of a document whose deletion bit was not tested", key="R1|%s|read" % g.qname)

def own_number(P, f, v, depth=0, seen=()):
    """does the value come from a counter, a parameter or a bit vector (not from postings or another scorer)?
    None: only constants"""
    if depth > 8: return False
    e = P.expr(f, v) if isinstance(v, str) else v
    k = e[0]
    if k == "const": return None
    if k == "bin":
        a, b = own_number(P, f, e[2], depth + 1, seen), own_number(P, f, e[3], depth + 1, seen)
        return False if a is False or b is False else (a or b)
    if k == "arg": return f.ret == "i1" or True
    if k == "load" and e[1][0] == "field" and e[1][2] == "FrtScorer.doc" and e[1][1] == ("arg", 0): return True
    if k == "load" and e[1][0] == "field" and e[1][1] == ("arg", 0):
        fld = e[1][2]
        ws = [(g, i) for g, i in field_writes(P, fld)]
        if not ws or depth > 2: return False
        r = None
        for g, i in ws:
            x = own_number(P, g, i.ops[0], depth + 3)
            if x is False: return False
            r = r or x
        return r
    if k == "call":
        d = e[1]
        if d.extra == "direct" and d.callee.startswith("frt_bv_"): return True
        return False
    if k == "phi":
        r = None
        if e[1].res in seen: return None
        for o in e[1].ops:
            if o == e[1].res: continue
            x = own_number(P, f, o, depth + 1, seen + (e[1].res,))
            if x is False: return False
            r = r or x
        return r
    if k == "select":
        a, b = own_number(P, f, e[1].ops[1], depth + 1, seen), own_number(P, f, e[1].ops[2], depth + 1, seen)
        return False if a is False or b is False else (a or b)
    return False

_fw = {}
def field_writes(P, fld):
    if id(P) not in _fw:
        m = collections.defaultdict(list)
        for q, f in P.funcs.items():
            for i in f.insts():
                if i.op == "store":
                    fa = P.field_addr(f, i.ops[1])
                    if fa: m[fa].append((f, i))
        _fw[id(P)] = m
    return _fw[id(P)][fld]

def scorers(P, R, L):
    slots = ("FrtScorer.next", "FrtScorer.skip_to")
    fns = set().union(*[P.slots.get(s, set()) for s in slots])
    work = sorted(fns); group = {}
    def mine(q, seen=()):
        """stores to the scorer's own doc of numbers it made up, directly or in internal helpers"""
        if q in group: return group[q]
        f = P.funcs[q]; group[q] = []
        r = [i for i in f.insts() if i.op == "store" and P.field_addr(f, i.ops[1]) == "FrtScorer.doc"
             and P.expr(f, i.ops[1])[1] == ("arg", 0) and own_number(P, f, i.ops[0])]
        group[q] = r
        return r
    def helper(t): return t.internal and t.ret in ("i1", "i8", "i32", "void") and t.qname not in fns
    def moves(q, seen=None):
        seen = seen or set()
        if q in seen: return False
        seen.add(q)
        return bool(mine(q)) or any(moves(t.qname, seen) for c in P.calls[q] if c.extra == "direct" for t in P.targets(c)
                                    if t.qname in fns or helper(t) and P.funcs[t.qname].file == P.funcs[q].file)
    memo = {}
    def summary(t):
        if t.qname in memo: return memo[t.qname]
        memo[t.qname] = "U"
        ends = run_fn(t)
        by = collections.defaultdict(set)
        for k, st, i in ends: by[None if k is None else int(bool(k))].add(st[0])
        if None not in by and by and t.ret != "void":
            memo[t.qname] = {b: ("L" if by[b] <= {"L", "N"} and by[b] else "U") for b in (0, 1)}
        else:
            s = set().union(*by.values()) if by else {"U"}
            memo[t.qname] = "L" if s == {"L"} else "U"
        return memo[t.qname]
    def run_fn(f):
        ends = []
        st_own = mine(f.qname)
        def advance(i):
            if i.op == "store" and P.field_addr(f, i.ops[1]) == "FrtScorer.doc" and P.expr(f, i.ops[1])[1] == ("arg", 0):
                return "U" if i in st_own else "L"
            if i.op == "call" and i.extra == "direct":
                t = P.lookup(f.mod, i.callee)
                if t is not None and t.qname in fns: return {1: "L", 0: "U"}
                if t is not None and helper(t) and moves(t.qname): return summary(t)
            return None
        cl = ScorerClient(L, f, advance)
        def done(k, st, i):
            if k == "ret": ends.append((cl.exit_k, st, i))
        explore(P, f, ("U", frozenset()), cl, on_exit=done)
        return ends
    for q in work:
        f = P.funcs[q]
        if not moves(q): continue
        R.analyse(f)
        bad = None
        for k, st, i in run_fn(f):
            if k == 0 or st[0] in ("L", "N"): continue
            if k is None and i.ops and i.ops[0]:
                d = f.defs.get(i.ops[0])
                while d is not None and d.op in ("zext", "trunc", "sext", "freeze"): d = f.defs.get(d.ops[0])
                if d is not None and d.op == "call" and any(t.qname in fns for t in P.targets(d)): continue
            bad = i
        R.check("R2", bad is None, "%s:%s" % (f.file, bad.line if bad else f.line), q, "reports only documents the reader says are live",
                "can report a document it did not ask the reader about", key="R2|%s" % q)

class ScorerClient(live.LiveClient):
    def branch(self, i, cond, taken, st):
        """a negative document number means there is none"""
        P = self.L.P; v = cond
        for x, y in st[1]:
            if x == v: v = y
        d = self.f.defs.get(v)
        if d is not None and d.op == "icmp":
            e = P.expr(self.f, d.ops[0])
            if e[0] == "load" and e[1][0] == "field" and e[1][2] == "FrtScorer.doc":
                neg = {("sge", "0"): False, ("sgt", "-1"): False, ("slt", "0"): True, ("sle", "-1"): True, ("eq", "-1"): True,
                       ("ne", "-1"): False}.get((d.extra, d.ops[1]))
                if neg is not None and neg == taken: return ("N", st[1])
        return live.LiveClient.branch(self, i, cond, taken, st)

def merging(P, R, L):
    MAX = "SegmentMergeInfo.max_doc"
    def is_max(f, v, depth=0):
        e = P.expr(f, v)
        if e[0] == "load" and e[1][0] == "field": return e[1][2] == MAX
        if e[0] == "arg" and depth < 3:
            cs = [c for c in P.callers[f.qname] if c.extra == "direct"]
            return bool(cs) and all(is_max(c.fn, c.ops[e[1]], depth + 1) for c in cs)
        return False
    def isw(c): return c.extra == "direct" and (c.callee.startswith("frt_os_write") or c.callee in ("frt_is2os_copy_bytes", "is2os_copy_bytes", "is2os_copy_vints", "frt_is2os_copy_vints"))
    for q, f in sorted(P.funcs.items()):
        if f.mod not in P.core_mods: continue
        if not any(isw(c) or (c.extra == "direct" and any(isw(d) for t in P.targets(c) for d in P.calls[t.qname])) for c in P.calls[q]): continue
        if not any(i.op == "icmp" and any(is_max(f, o) for o in i.ops) for i in f.insts()) and \
           not any(isw(c) and any(isinstance(o, str) and is_max(f, o) for o in c.ops) for c in P.calls[q]): continue
        R.analyse(f)
        bad = []; sites = set()
        helpers = {t.qname for c in P.calls[q] if c.extra == "direct" and not isw(c) for t in P.targets(c) if any(isw(d) for d in P.calls[t.qname])}
        class Cl(live.LiveClient):
            # status: N outside the documents' loop, U/L inside; 'Z' = the segment has no deletions (outside)
            def call(self, i, st):
                w = isw(i) or (i.extra == "direct" and any(t.qname in helpers for t in P.targets(i)))
                if w:
                    bulk = any(isinstance(o, str) and is_max(f, o) for o in i.ops)
                    if st[0] == "U" or (bulk and not dict(st[1]).get("#nodel")):
                        # a helper that is handed the deletions decides for itself
                        if not any(isinstance(o, str) and L.del_vec(f, o) for o in i.ops): bad.append(i)
                    if st[0] in "UL" or bulk: sites.add(i.uid)
                return [st], None
            def step(self, i, st):
                if i.op == "load" and dict(st[1]).get("#nodel") == i.res: return (st[0], frozenset(x for x in st[1] if x[0] != "#nodel"))
                return st
            def branch(self, i, cond, taken, st):
                d = f.defs.get(cond)
                if d is not None and d.op == "icmp" and any(is_max(f, o) for o in d.ops) and d.extra in ("slt", "ult", "sgt", "ugt", "ne", "eq", "sge", "uge", "sle", "ule"):
                    other = [o for o in d.ops if not is_max(f, o)]
                    if other and not other[0].lstrip("-").isdigit():
                        inside = taken if d.extra in ("slt", "ult", "sgt", "ugt", "ne") else not taken
                        return ("U" if inside else "N", st[1])
                t = L.truth(f, cond, st[1])
                if t in ("null", "!null") and (t == "null") == taken:
                    base = next((self.base(o) for o in f.defs[cond].ops if o != "null"), None) if cond in f.defs else None
                    st = (st[0], frozenset(x for x in st[1] if x[0] != "#nodel") | {("#nodel", base or "?")})
                return live.LiveClient.branch(self, i, cond, taken, st)
            def base(self, v):
                d = f.defs.get(v)
                while d is not None and d.op in ("load", "getelementptr"):
                    v = d.ops[0]
                    d = f.defs.get(v)
                    if d is not None and d.op == "load": return d.res
                return v
        explore(P, f, ("N", frozenset()), Cl(L, f, lambda i: None))
        if not sites and not bad: continue
        for i in bad:
            R.bad("R3", "%s:%s" % (f.file, i.line), q, "merging writes data of a document whose deletion bit was not tested", key="R3|%s" % q)
        for u in sites - {i.uid for i in bad}: R.ok("R3", "%s" % f.file, "%s: write guarded by the deletion bit" % q)

def fetching(P, R, L):
    for s in ("FrtIndexReader.get_doc", "FrtIndexReader.get_lazy_doc"):
        impls = P.slots.get(s, set())
        for q in sorted(impls):
            f = P.funcs[q]; R.analyse(f)
            bad = []
            def advance(i): return None
            cl = live.LiveClient(L, f, advance)
            def done(k, st, i):
                if k != "ret" or st[0] == "L": return
                v = i.ops[0]
                if v == "null" or cl.exit_k == 0: return
                # delegates to the same operation of a sub-reader
                for d in origins(f, v):
                    if d is not None and d.op == "call" and d.extra != "direct" and P.slot(d) == s: continue
                    if d is not None and d.op == "call" and d.extra == "direct" and any(t.qname in impls for t in P.targets(d)): continue
                    bad.append(i)
            explore(P, f, ("U", frozenset()), cl, on_exit=done)
            R.check("R4", not bad, "%s:%s" % (f.file, bad[0].line if bad else f.line), q, "%s returns only live documents" % s,
                    "returns a document without having tested whether it is deleted", key="R4|%s" % q)

def origins(f, v):
    """instructions a returned value may come from (through phis, casts and local variables)"""
    out = []; seen = set(); work = [v]
    while work:
        x = work.pop()
        if x in seen: continue
        seen.add(x)
        if x in ("null", "undef", "poison"): continue
        d = f.defs.get(x)
        if d is None: out.append(None)
        elif d.op == "phi": work += list(d.ops)
        elif d.op == "select": work += list(d.ops[1:])
        elif d.op == "load" and f.defs.get(d.ops[0]) is not None and f.defs[d.ops[0]].op == "alloca":
            work += [i.ops[0] for i in f.insts() if i.op == "store" and i.ops[1] == d.ops[0]]
        elif d.op in ("bitcast", "zext", "trunc"): work.append(d.ops[0])
        else: out.append(d)
    return out

def wiring(P, R, L):
    # R5: who sets an enumerator's deletions
    def given(f, v, depth=0):
        """list of (function, call, ok) for the sources of the value"""
        e = P.expr(f, v)
        if e[0] == "arg" and depth < 4:
            r = []
            for c in P.callers[f.qname]:
                if c.extra == "direct" and e[1] < len(c.ops): r += given(c.fn, c.ops[e[1]], depth + 1) if P.expr(c.fn, c.ops[e[1]])[0] == "arg" else [(c.fn, c, L.del_vec(c.fn, c.ops[e[1]]))]
            return r
        return [(f, None, L.del_vec(f, v))]
    n = 0
    for f, i in field_writes(P, ENUM + "." + live.DEL):
        for g, c, ok in given(f, i.ops[0]):
            R.analyse(g); n += 1
            R.check("R5", ok, "%s:%s" % (g.file, (c or i).line), g.qname, "enumerator gets the segment's deletions",
                    "makes a posting enumerator without the segment's deletions", key="R5|%s" % g.qname)
    # R6: loading
    for st in sorted({k[:-len(live.DEL) - 1] for k in all_fields(P) if k.endswith("." + live.DEL)} - {ENUM}):
        loads = []
        for f, i in field_writes(P, st + "." + live.DEL):
            d = f.defs.get(i.ops[0])
            if d is not None and d.op == "call" and any(makes_bv_from_file(P, t) for t in P.targets(d)): loads.append((f, i))
        if not loads:
            fw = field_writes(P, st + "." + live.DEL)
            if fw:
                f, i = fw[0]
                R.bad("R6", "%s:%s" % (f.file, i.line), f.qname, "nothing loads the deletions of a %s" % st, key="R6|%s" % st)
            continue
        for f in {x[0].qname: x[0] for x in loads}.values():
            ins = [i for g, i in loads if g is f]
            bad = []
            class Cl(Client):
                def step(self, i, s):
                    if i in ins: return "D"
                    return s
                def branch(self, i, cond, taken, s):
                    if s == "D": return s
                    t = no_deletions(P, f, cond)
                    if t is not None and t == taken: return "Z"
                    return s
            def done(k, s, i):
                if k == "ret" and s == "U" and not (i.ops and i.ops[0] == "null"): bad.append(i)
            explore(P, f, "U", Cl(P), on_exit=done)
            R.analyse(f)
            R.check("R6", not bad, "%s:%s" % (f.file, bad[0].line if bad else f.line), f.qname, "loads the deletions of a %s unless the segment has none" % st,
                    "can open a segment that has deletions without loading them", key="R6|%s" % f.qname)

def all_fields(P):
    field_writes(P, "")
    return list(_fw[id(P)])

def makes_bv_from_file(P, t, depth=0):
    if t.ret != "ptr": return False
    cs = P.calls[t.qname]
    if any(c.extra == "direct" and c.callee.startswith("frt_is_read") for c in cs) and \
       any(P.field_addr(t, i.ops[1]) == "FrtBitVector.bits" for i in t.insts() if i.op == "store"): return True
    return depth < 2 and any(makes_bv_from_file(P, u, depth + 1) for c in cs if c.extra == "direct" for u in P.targets(c))

def no_deletions(P, f, cond, depth=0):
    """True/False: the condition's value that means 'the segment has no deletions'"""
    d = f.defs.get(cond)
    if d is None or depth > 6: return None
    if d.op in ("zext", "trunc", "sext"): return no_deletions(P, f, d.ops[0], depth + 1)
    if d.op == "xor" and d.ops[1] in ("true", "1", "-1"):
        r = no_deletions(P, f, d.ops[0], depth + 1); return None if r is None else not r
    if d.op == "icmp":
        a, b = d.ops
        if P.field_load(f, a) == "FrtSegmentInfo.del_gen" and b in ("0", "-1"):
            return {("sge", "0"): False, ("sgt", "-1"): False, ("slt", "0"): True, ("sle", "-1"): True, ("eq", "-1"): True, ("ne", "-1"): False}.get((d.extra, b))
        if b in ("0", "null", "false"):
            r = no_deletions(P, f, a, depth + 1)
            if r is None: return None
            return r if d.extra == "ne" else not r
    if d.op == "call" and d.extra == "direct":
        t = P.lookup(f.mod, d.callee)
        if t is not None and t.ret in ("i1", "i8", "i32"):
            rs = [i.ops[0] for i in t.insts() if i.op == "ret"]
            vs = {no_deletions(P, t, v, depth + 1) for v in rs}
            if len(vs) == 1: return vs.pop()
    return None

def recording(P, R, L):
    impls = P.slots.get("FrtIndexReader.delete_doc_i", set())
    for q in sorted(impls):
        f = P.funcs[q]; R.analyse(f)
        def sets(c): return c.extra == "direct" and c.callee.startswith("frt_bv_set") and L.del_vec(c.fn, c.ops[0])
        flags = ("deleted_docs_dirty", "has_changes")
        seg = any(sets(c) for c in P.calls[q]) or any(sets(c) for c0 in P.calls[q] if c0.extra == "direct" for t in P.targets(c0) for c in P.calls[t.qname])
        need = {"bit"} | (set(flags) if seg else set())
        def eff(g, depth=0):
            """what a call to helper g does on every normal path"""
            res = [None]
            class Cl(Client):
                def step(self, i, s):
                    if i.op == "store":
                        b = P.bit_write(g, i)
                        if b:
                            n = b[0].split(".")[-1]; v = b[1]
                        else:
                            fa = P.field_addr(g, i.ops[1])
                            n = fa.split(".")[-1] if fa else None; v = P.expr(g, i.ops[0])
                        if n in flags: s = s | {n} if v not in (("const", 0),) else s - {n}
                    return s
                def call(self, i, s):
                    if sets(i): s = s | {"bit"}
                    elif i.extra != "direct" and P.slot(i) in ("FrtIndexReader.delete_doc_i",): s = s | {"bit"}
                    elif i.extra == "direct" and depth < 3:
                        for t in P.targets(i):
                            if t.qname in impls or any(P.slot(c) == "FrtIndexReader.delete_doc_i" for c in P.calls[t.qname]): s = s | {"bit"}
                            elif t.internal and t.qname != g.qname and any(n in fl for n in flags for fl in written(P, t)) or any(sets(c) for c in P.calls[t.qname]):
                                s = s | eff(t, depth + 1)
                    return [s], None
            def done(k, s, i):
                if k == "ret": res[0] = s if res[0] is None else res[0] & s
            explore(P, g, frozenset(), Cl(P), on_exit=done)
            return res[0] or frozenset()
        got = eff(f)
        R.check("R7", need <= got, "%s:%s" % (f.file, f.line), q, "records the deletion (%s)" % ", ".join(sorted(need)),
                "a deletion can go unrecorded: on some path it does not set %s" % ", ".join(sorted(need - got)), key="R7|%s" % q)
    # copying segments between indexes
    roots = [P.fn(n) for n in ("frt_iw_add_readers",) if P.has(n)]
    reach = P.reach([f.qname for f in roots]) if roots else set()
    found = None
    for q in sorted(reach):
        f = P.funcs[q]
        ws = [c for c in P.calls[q] if c.extra == "direct" and any(writes_bv(P, t) for t in P.targets(c)) and any(isinstance(o, str) and L.del_vec(f, o) for o in c.ops)]
        if not ws: continue
        if q in P.slots.get("FrtIndexReader.commit_i", set()): continue
        bad = []
        class Cl(Client):
            def call(self, i, s): return ["W" if i in ws else s], None
            def branch(self, i, cond, taken, s):
                t = L.truth(f, cond, ())
                if s != "W" and t in ("null", "!null") and (t == "null") == taken: return "Z"
                return s
        def done(k, s, i):
            if k == "ret" and s == "U": bad.append(i)
        explore(P, f, "U", Cl(P), on_exit=done)
        if bad: found = found or (f, bad[0], False)
        else: found = (f, ws[0], True)
    for r in roots:
        if found is None:
            R.bad("R7", "%s:%s" % (r.file, r.line), r.qname, "copying segments from another index never writes their deletions", key="R7|add_readers")
        else:
            f, i, ok = found
            R.check("R7", ok, "%s:%s" % (f.file, i.line), f.qname, "a copied segment's deletions are written unless it has none",
                    "a copied segment's deletions can be left behind", key="R7|add_readers")

def written(P, t):
    out = set()
    for i in t.insts():
        if i.op == "store":
            fa = P.field_addr(t, i.ops[1])
            if fa: out.add(fa)
    return out

def writes_bv(P, t):
    cs = P.calls[t.qname]
    return any(c.extra == "direct" and c.callee.startswith("frt_os_write") for c in cs) and \
        any(i.op == "load" and P.field_addr(t, i.ops[0]) == "FrtBitVector.bits" for i in t.insts())


UND, DIR, GEN = "undelete_all", "deleted_docs_dirty", "FrtSegmentInfo.del_gen"
def setting(P, g, i):
    """(flag, value or None) a store puts in one of the two flags"""
    b = P.bit_write(g, i)
    if b: n, v = b[0].split(".")[-1], b[1]
    else:
        fa = P.field_addr(g, i.ops[1])
        n, v = (fa.split(".")[-1] if fa else None), P.expr(g, i.ops[0])
    if n not in (UND, DIR): return None
    return n, (1 if v[1] else 0) if v[0] == "const" else None

def flags_after(P, L, q, depth=0):
    """what an operation leaves in the flags, on every path: {flag: set of values}"""
    out = {UND: set(), DIR: set()}
    class Cl(Client):
        def step(self, i, s):
            if i.op == "store":
                x = setting(P, i.fn, i)
                if x: s = tuple(sorted({**dict(s), x[0]: x[1]}.items()))
            return s
        def call(self, i, s):
            if i.extra == "direct" and depth < 3:
                for t in P.targets(i):
                    if t.internal and t.qname != q and any(j.op == "store" and setting(P, t, j) for j in t.insts()):
                        r = flags_after(P, L, t.qname, depth + 1)
                        return [tuple(sorted({**dict(s), **{k: (next(iter(v)) if len(v) == 1 else None) for k, v in r.items() if v != {"same"}}}.items()))], None
            return [s], None
    def done(k, s, i):
        if k == "ret":
            for n in out: out[n].add(dict(s).get(n, "same"))
    explore(P, P.funcs[q], (), Cl(P), on_exit=done)
    return out

def committing(P, R, L):
    commits = sorted(P.slots.get("FrtIndexReader.commit_i", set()))
    def makes(q, seen):
        if q in seen or q not in P.funcs: return False
        seen.add(q); f = P.funcs[q]
        if any(i.op == "store" and P.field_addr(f, i.ops[1]) == GEN for i in f.insts()): return True
        return any(c.extra == "direct" and any(t.internal and makes(t.qname, seen) for t in P.targets(c)) for c in P.calls[q])
    commits = [q for q in commits if makes(q, set())]
    def runs(f, s0, depth=0):
        outs = set()
        class Cl(Client):
            def step(self, i, s):
                if i.op == "store":
                    if P.field_addr(f, i.ops[1]) == GEN: s = s[:3] + ("none" if i.ops[0] == "-1" else "new",) + s[4:]
                    x = setting(P, f, i)
                    if x: s = (x[1], s[1]) + s[2:] if x[0] == UND else (s[0], x[1]) + s[2:]
                return s
            def call(self, i, s):
                if i.extra == "direct":
                    ts = P.targets(i)
                    if any(writes_bv(P, t) for t in ts) and any(isinstance(o, str) and L.del_vec(f, o) for o in i.ops): return [s[:2] + (True,) + s[3:]], None
                    for t in ts:
                        if t.internal and t.qname != f.qname and depth < 4 and makes(t.qname, set()): return sorted(runs(t, s, depth + 1), key=repr), None
                return [s], None
            def branch(self, i, cond, taken, s):
                e = P.expr(f, cond); neg = False
                while e[0] == "cmp" and e[1] in ("eq", "ne") and e[3] == ("const", 0):
                    if e[1] == "eq": neg = not neg
                    e = e[2]
                fl = P.flag_read(e); n = fl.split(".")[-1] if fl else None
                if n in (UND, DIR):
                    v = s[0] if n == UND else s[1]
                    if v is not None and bool(v) != (taken != neg): return None
                elif n is None and (UND in repr(e) or DIR in repr(e) or merged(f, cond)): return s[:4] + (True,)
                return s
        explore(P, f, s0, Cl(P), on_exit=lambda k, s, i: outs.add(s) if k == "ret" else None)
        return outs
    def states(q, fixed):
        r = flags_after(P, L, q)
        if not r[UND]: return []
        vs = {n: {x for v in r[n] for x in ((0, 1) if v in ("same", None) else (v,))} for n in r}
        return [(u, d) for u in vs[UND] for d in vs[DIR] if (u if fixed == UND else d) == 1]
    for q in sorted(P.slots.get("FrtIndexReader.delete_doc_i", set())) + sorted(P.slots.get("FrtIndexReader.undelete_all_i", set())):
        g = P.funcs[q]; und = q in P.slots.get("FrtIndexReader.undelete_all_i", set())
        if not any(i.op == "store" and setting(P, h, i) for h in [g] + [t for c in P.calls[q] if c.extra == "direct" for t in P.targets(c) if t.internal] for i in h.insts()): continue
        for cq in commits:
            f = P.funcs[cq]; R.analyse(f)
            why = None
            for u, d in states(q, UND if und else DIR):
                for s in runs(f, (u, d, False, None, False)):
                    if s[4]: continue
                    if not und and not (s[2] and s[3] == "new"):
                        why = "a commit after a deletion can leave the deletions unrecorded%s" % (" when everything had been undeleted before" if u else "")
                    if und and s[3] != "none" and not s[2]: why = "a commit after undeleting everything can leave the old deletions in force"
            R.check("R8", why is None, "%s:%s" % (f.file, f.line), cq, "%s, then commit" % q, why or "", key="R8|%s|%s" % (q, cq))

def merged(f, v, n=0):
    """a condition made of several"""
    d = f.defs.get(v)
    if d is None or n > 6: return False
    if d.op in ("phi", "select") and d.ty in ("i1", "i8", "i32"): return d.ty == "i1" or any(merged(f, o, n + 1) for o in d.ops if isinstance(o, str)) and n < 4
    return d.op in ("zext", "trunc", "sext", "icmp", "xor", "and", "or", "freeze") and any(merged(f, o, n + 1) for o in d.ops if isinstance(o, str))
