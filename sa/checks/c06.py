"""C06: a failed read, write, seek, open, rename or close of an index file is always reported."""
from failpath import fail_exits, SHORT
from prog import Client, explore, RAISE_FNS
import lockset

# system call -> value that reports failure
MUST = {"write": SHORT, "pwrite": SHORT, "pwrite64": SHORT, "read": SHORT, "pread": SHORT, "pread64": SHORT,
        "lseek": -1, "lseek64": -1, "rename": -1, "open": -1, "open64": -1, "creat": -1, "creat64": -1,
        "stat": -1, "stat64": -1, "fstat": -1, "fstat64": -1, "opendir": 0, "fsync": -1, "fdatasync": -1,
        "ftruncate": -1, "ftruncate64": -1, "fopen": 0, "fopen64": 0, "fwrite": SHORT, "mkdir": -1,
        "BZ2_bzDecompress": -4, "BZ2_bzDecompressInit": -3, "BZ2_bzCompressInit": -3,
        "deflateInit": -2, "inflateInit": -2}
WRITE_SLOTS = {"FrtStore.new_output", "FrtStore.rename", "FrtStore.touch"}
FLUSH_SLOTS = {"OutStreamMethods.flush_i", "FrtOutStreamMethods.flush_i", "OutStreamMethods.close_i", "FrtOutStreamMethods.close_i",
               "OutStreamMethods.seek_i", "FrtOutStreamMethods.seek_i"}

# operations whose answer "no" or "not done" is itself the report
YESNO = {"FrtStore.remove", "FrtLock.obtain", "FrtLock.is_locked"}

def store_functions(P):
    """functions that implement the store and stream interfaces, and what they call directly"""
    roots = set()
    for s, fns in P.slots.items():
        st = s.split(".")[0]
        if st in ("FrtStore", "OutStreamMethods", "InStreamMethods", "FrtOutStreamMethods", "FrtInStreamMethods", "FrtLock"):
            roots |= fns
    return roots

def run(P, R):
    R.rule("R1", "after a system call on an index file (open, read, write, seek, rename, stat, opendir, and close of an "
                 "output) has reported failure, every path leaves the function by raising, or hands the failure on as the "
                 "return value (then the rule applies to the callers of that helper)", floor=12)
    R.rule("R2", "no error raised while index data is being written is caught and dropped: every path through a handler "
                 "from a call that can write an index file ends by raising (the advisory copy of the generation number, "
                 "written under a constant name, is exempt)", floor=8)
    R.rule("R3", "every stream read method either checks the amount the system read, or moves data only on paths that "
                 "have established position + length <= length of the file (raising otherwise)", floor=3)
    roots = store_functions(P)
    if len(roots) < 20: raise Exception("store interface not found")
    at = lockset.address_taken(P)
    sites = []
    for q, cs in P.calls.items():
        if P.funcs[q].mod not in P.core_mods: continue
        for c in cs:
            if c.extra == "direct" and c.callee in MUST and P.lookup(c.fn.mod, c.callee) is None:
                if c.callee in ("lseek", "lseek64") and c.ops[1] == "0" and c.ops[2] == "1": continue  # asks, moves nothing
                sites.append((c, MUST[c.callee], c.callee))
            elif c.extra == "direct" and c.callee == "close" and writes_fd(P, c):
                sites.append((c, -1, "close of an output"))
    done = set()
    while sites:
        c, fv, what = sites.pop()
        if (c.fn.qname, c.uid, fv) in done: continue
        done.add((c.fn.qname, c.uid, fv))
        f = c.fn; R.analyse(f)
        w = "%s:%s" % (f.file, c.line)
        ends = fail_exits(P, f, c, fv)
        bad = None; handed = set()
        for kind, v, i in ends:
            if kind == "raise": continue
            if v == "void" or v == "?": bad = i; continue
            handed.add(v)
        if bad is not None:
            if probe(P, c): R.ok("R1", w, "%s: best-effort probe" % f.qname); continue
            R.bad("R1", "%s:%s" % (f.file, c.line), f.qname,
                  "a failure of %s goes unreported: the function carries on and returns normally" % what,
                  key="R1|%s|%s" % (f.qname, what))
            continue
        R.ok("R1", w, "%s: failure of %s is reported" % (f.qname, what))
        if handed and f.internal and f.qname not in at:
            for v in handed:
                for k in P.callers[f.qname]: sites.append((k, v, what))
        elif handed:
            fs = {s for s, fns in P.slots.items() if f.qname in fns and s.startswith("Frt")}
            quiet = any(k == "ret" for k, v, i in ends)
            if fs and quiet:
                okay = fs <= YESNO
                R.check("R1", okay, w, f.qname, "an operation that answers yes or no",
                        "a failure of %s is answered with an ordinary result (%s)" % (what, ", ".join(map(str, sorted(handed, key=str)))),
                        key="R1|%s|%s" % (f.qname, what))
    # R2
    reach_w = {}
    def durable(fn, i):
        """the call can create or write an index file (other than the advisory constant-named one)"""
        ts = P.targets(i)
        s = P.slot(i)
        if s in WRITE_SLOTS: return not const_name(fn, i)
        if s in FLUSH_SLOTS: return True
        return any(reach_write(t.qname) for t in ts)
    def const_name(fn, i):
        e = P.expr(fn, i.ops[1]) if len(i.ops) > 1 else ("none",)
        return e[0] == "global" and ".str" in e[1]
    stream_write = set()
    for q, cs in P.calls.items():
        if any(P.slot(c) in FLUSH_SLOTS for c in cs if c.extra != "direct"): stream_write.add(q)
    # buffered writes: everything that reaches a flush without opening a file itself
    wr = set(stream_write); opens = set()
    for q, cs in P.calls.items():
        for c in cs:
            if c.extra != "direct" and P.slot(c) in WRITE_SLOTS and not const_name(c.fn, c): opens.add(q)
    hint = {q for q, cs in P.calls.items() if any(c.extra != "direct" and P.slot(c) in WRITE_SLOTS for c in cs)
            and q not in opens}
    clean = {q: unwinding(P, P.funcs[q]) for q in P.calls}
    changed = True
    while changed:
        changed = False
        for q, cs in P.calls.items():
            if q in wr and q in opens: continue
            for c in cs:
                if c.extra != "direct" or c.uid in clean[q]: continue
                t = P.lookup(c.fn.mod, c.callee)
                if t is None: continue
                if t.qname in wr and q not in wr and q not in hint: wr.add(q); changed = True
                if t.qname in opens and q not in opens: opens.add(q); changed = True
    def reach_write(q): return q in wr or q in opens
    for q, f in sorted(P.funcs.items()):
        if f.mod not in P.core_mods: continue
        if not any(c.callee == "frt_xpush_context" for c in P.calls[q]): continue
        R.analyse(f)
        local_hint = not any(c.extra != "direct" and P.slot(c) in WRITE_SLOTS and not const_name(f, c) for c in P.calls[q]) and \
            any(c.extra != "direct" and P.slot(c) in WRITE_SLOTS for c in P.calls[q])
        hint_streams = hint_stream_vals(P, f, const_name)
        class Cl(Client):
            def call(self, i, st):
                if not P.call_may_raise(i): return [st], None
                d = None
                if durable(f, i) and not on_hint_stream(P, f, i, hint_streams): d = (i.line, P.callee_name(i))
                return [st], [st if d is None else d]
        swallowed = []
        explore(P, f, "", Cl(P), on_exit=lambda k, st, i: swallowed.append((k, st, i)))
        badset = set()
        for k, st, i in swallowed:
            if k == "ret" and st: badset.add(st)
        for line, cal in sorted(badset):
            R.bad("R2", "%s:%s" % (f.file, line), q, "an error raised by %s is caught and dropped" % cal,
                  key="R2|%s|%s" % (q, cal))
        if not badset: R.ok("R2", "%s:%s" % (f.file, f.line), "%s: no handler drops a write error" % q)
    # R3
    n3 = 0
    for slot in ("InStreamMethods.read_i", "FrtInStreamMethods.read_i"):
        for q in sorted(P.slots.get(slot, ())):
            f = P.funcs[q]; R.analyse(f)
            w = "%s:%s" % (f.file, f.line)
            if any(c.extra == "direct" and c.callee in ("read", "pread", "pread64") for g in [q] + helpers(P, q) for c in P.calls[g]):
                R.ok("R3", w, "%s: the amount read is checked (R1)" % q); continue
            bad = unbounded(P, f)
            R.check("R3", not bad, w, q, "raises unless position + length is within the file",
                    "moves data at line %s on a path that has not established that the read ends within the file" % (bad[0] if bad else ""))
    R.assumption("Failures are those the operating system reports; allocation failure is not modelled.")
    R.assumption("Removing a file is best effort (the deleter retries) and close of a read-only descriptor carries no data.")

def unwinding(P, f):
    """calls made only while an error is already pending (cleaning up): not where an error starts"""
    if not any(c.callee == "frt_xpush_context" for c in P.calls[f.qname]): return ()
    plain = set(); every = {c.uid for c in P.calls[f.qname]}
    class Cl(Client):
        def call(self, i, st):
            if not any(c[2] for c in self.ctx): plain.add(i.uid)
            return [st], None
    explore(P, f, "", Cl(P))
    return every - plain

def helpers(P, q):
    return [t.qname for c in P.calls[q] if c.extra == "direct" for t in P.targets(c) if t.internal]

def unbounded(P, f):
    """lines where data is moved although no branch on the path implies  start + len <= length"""
    import linear
    n = f.args[2]
    class Cl(Client):
        def branch(self, i, cond, taken, st):
            for l, c in linear.facts(P, f, cond, taken):
                d = dict(l)
                if d.get("a2") == 1 and c >= 0 and any(k.startswith("*") and ("len" in k.rsplit(".", 1)[-1]) and v == -1 for k, v in d.items()) \
                        and any(v == 1 and k != "a2" for k, v in d.items()):
                    return True
            return st
        def call(self, i, st):
            mv = i.extra == "direct" and (i.callee.startswith("llvm.memcpy") or i.callee in ("memcpy", "memmove"))
            t = P.lookup(f.mod, i.callee) if i.extra == "direct" else None
            if t is not None and not t.internal and any(x.op == "call" for x in t.insts()) and any("InStream" in (P.slot(x) or "") for x in P.calls[t.qname]) \
                    and len(i.ops) == 3: mv = True
            if mv and not st: bad.append(i.line)
            return [st], None
    bad = []
    explore(P, f, False, Cl(P))
    return sorted(set(bad))

def writes_fd(P, c):
    """the descriptor closed belongs to an OutStream"""
    e = P.expr(c.fn, c.ops[0])
    def has(e):
        if isinstance(e, tuple):
            if e[0] == "field" and "OutStream" in e[2]: return True
            return any(has(x) for x in e[1:] if isinstance(x, tuple))
        return False
    return has(e)

def probe(P, c):
    """stat of a path only to copy its mode bits: opening the path fails later if it does not exist"""
    return c.callee in ("stat", "stat64") and any(x.callee in ("getgid", "umask") for x in P.calls[c.fn.qname])

def hint_stream_vals(P, f, const_name):
    vals = set(); locs = set()
    for c in P.calls[f.qname]:
        if c.extra != "direct" and P.slot(c) == "FrtStore.new_output" and const_name(f, c): vals.add(c.res)
    for i in f.insts():
        if i.op == "store" and i.ops[0] in vals: locs.add((i.ops[1], i.line))
    return vals, locs

def on_hint_stream(P, f, i, hs):
    """a stream call whose stream operand was opened under the constant advisory name"""
    vals, locs = hs
    if not vals or not i.ops: return False
    v = i.ops[0]
    if v in vals: return True
    d = f.defs.get(v)
    if d is not None and d.op == "phi": return all(o in vals or o in ("null", "undef") for o in d.ops)
    if d is not None and d.op == "load":
        a = d.ops[0]
        if a in {x for x, _ in locs}:
            # several streams may share the variable: the nearest store before this use decides
            st = [s for s in f.insts() if s.op == "store" and s.ops[1] == a and s.ops[0] not in ("null",)]
            prev = [s for s in st if s.uid < i.uid]
            return bool(prev) and max(prev, key=lambda s: s.uid).ops[0] in vals
    return False
