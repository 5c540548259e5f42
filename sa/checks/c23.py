"""C23: cleanup uses only what exists; nothing is used or released after it was released."""
from prog import explore, AnalysisBroken
import own
RUBY = True

def run(P, R):
    R.rule("R1", "no path, with every call that can raise taken both ways, uses, calls through or hands to a function that "
                 "needs it a pointer that is still NULL or was never assigned: a local kept across a protected section, or a "
                 "field of zeroed memory that has not been filled in", floor=25)
    R.rule("R2", "after a call that frees an object, or gives up the reference to it, on every path, no path uses the object, passes it on or frees it again, "
                 "through the variable or through the field it was read from", floor=100)
    R.rule("R3", "an object that outlives the call it is handed to is not left with a field that still points to memory the call "
                 "freed, when code outside that call reads the field", floor=20)
    O = own.Own(P)
    skipped = []; readers = {}
    for q, f in P.funcs.items():
        for i in f.insts():
            if i.op == "load":
                fa = P.field_addr(f, i.ops[0])
                if fa: readers.setdefault(fa, set()).add(q)
    roots = [q for q in P.funcs if not P.callers.get(q)]
    def held(f, o):
        """the native object of a Ruby object: it lives on after the method"""
        d = f.defs.get(o)
        return d is not None and d.op == "load" and P.field_addr(f, d.ops[0]) == "RData.data"
    def read_outside(fa, g):
        """a function reading the field that is reached without going through g"""
        seen = set(); todo = [r for r in roots if r != g]
        while todo:
            q = todo.pop()
            if q in seen: continue
            seen.add(q)
            if q in readers.get(fa, ()): return q
            for c in P.calls[q]:
                for t in P.targets(c):
                    if t.qname != g and t.qname not in seen: todo.append(t.qname)
        return None
    for q, f in sorted(P.funcs.items()):
        cl0 = own.cells(f)
        zero = [c for c in P.calls[q] if c.callee in ("frt_ecalloc", "calloc")]
        frees = [c for c in P.calls[q] if O.call_consumes(c)]
        root = not P.callers.get(q)
        leave = any(O.empties(t.qname) for c in P.calls[q] for t in P.targets(c)) or root and any(O.leaves(t) for c in P.calls[q] for t in P.targets(c))
        if not cl0 and not zero and not frees and not leave: continue
        left = {}
        def ex(k, st, i):
            if st == own.DEAD: return
            if k == "ret" and root or k == "raise" and i.op == "call" and any(t.qname in P.noreturn for t in P.targets(i)):
                for o, fa, at in O.dangling(f, st):
                    if o in f.args or held(f, o): left[(o, fa)] = at
        reps = {}
        def rep(i, what, v): reps.setdefault((i.uid, what), i)
        cl = own.OwnClient(O, f, rep, True)
        try: explore(P, f, frozenset((c, "uninit") for c in cl0), cl, on_exit=ex, max_states=60000)
        except AnalysisBroken: skipped.append(q); continue
        R.analyse(f)
        w = "%s:%s" % (f.file, f.line)
        seen = set()
        for (uid, what), i in sorted(reps.items(), key=lambda x: x[0][0]):
            use = "calls " + P.callee_name(i) if i.op == "call" else "uses it"
            site = "%s:%s" % (f.file, i.line)
            if what in ("null", "uninit"):
                seen.add("R1")
                R.bad("R1", site, q, "%s with a pointer that can still be %s here" % (use, "NULL" if what == "null" else "unassigned"),
                      key="R1|%s|%s" % (q, P.callee_name(i) if i.op == "call" else i.op))
            else:
                seen.add("R2")
                R.bad("R2", site, q, "%s after the object was freed on line %s" % (use, what[1]),
                      key="R2|%s|%s" % (q, P.callee_name(i) if i.op == "call" else i.op))
        for (o, fa), (g, line) in sorted(left.items()):
            r = read_outside(fa, g)
            if r is None: continue
            seen.add("R3")
            R.bad("R3", "%s:%s" % (P.funcs[g].file, line), g, "what %s points to is freed and the field keeps pointing there when %s is left (read by %s)" % (fa, q, r),
                  key="R3|%s|%s" % (g, fa))
        if root and (frees or leave) and "R3" not in seen: R.ok("R3", w, q)
        if (cl0 or zero) and "R1" not in seen: R.ok("R1", w, "%s: %d local(s), %d zeroed object(s)" % (q, len(cl0), len(zero)))
        if frees and "R2" not in seen: R.ok("R2", w, "%s: %d releasing call(s)" % (q, len(frees)))
    R.assumption("Only releases on every path of the callee count; a reference taken in the same function keeps the object alive.")
    R.assumption("Pointers merged from NULL and other values outside protected sections are not judged (their guards are value conditions).")
    if skipped: R.assumption("Not explored, too many paths (generated code): " + ", ".join(skipped))
