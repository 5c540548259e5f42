"""C05: exception frames are balanced and handlers see current values."""
from prog import Client, explore
import ir, irbuild, os
RUBY = True

def run(P, R):
    R.rule("R1", "on every path to a normal return, each exception frame the function pushed has been popped", floor=15)
    R.rule("R2", "no path pops an exception frame the function did not push", floor=15)
    R.rule("R3", "a local variable assigned inside a protected section and read after an exception was caught there "
                 "(without being assigned again first) is volatile, so the handler sees its current value", floor=10)
    R.rule("R4", "the three primitives keep the per-thread chain of frames: installing links the frame to the previous one, "
                 "marks it handled and not cleaning up; removing restores the previous frame before anything else happens and "
                 "raises an unhandled error again; raising records code and message, then jumps to the innermost frame, "
                 "unless that frame is cleaning up, which keeps the first error and carries on", floor=6)
    primitives(P, R)
    fns = 0
    for q, f in sorted(P.funcs.items()):
        if f.short in ("frt_xpush_context", "frt_xpop_context"): continue
        push = [c for c in P.calls[q] if c.callee == "frt_xpush_context"]
        pop = [c for c in P.calls[q] if c.callee == "frt_xpop_context"]
        if not push and not pop: continue
        R.analyse(f); fns += 1
        w = "%s:%s" % (f.file, f.line)
        under = []
        class Cl(Client):
            def step(self, i, st):
                if i.op == "call" and i.callee == "frt_xpush_context": return min(st + 1, 9)
                if i.op == "call" and i.callee == "frt_xpop_context":
                    if st == 0: under.append(i.line); return 0
                    return st - 1
                return st
        cl = Cl(P)
        leaks = []
        explore(P, f, 0, cl, on_exit=lambda k, st, i: leaks.append((i.line, cl.exit_ctx)) if k == "ret" and cl.exit_ctx else None)
        lines = sorted({l for l, c in leaks if l is not None})
        R.check("R1", not leaks, w, q, "%d frame(s) popped on every return" % len(push),
                "returns with an exception frame still installed: later errors jump into a dead stack frame", key="R1|" + q)
        R.check("R2", not under, w, q, "no pop without a push",
                "pops an exception frame it did not push (line %s)" % (under[0] if under else ""), key="R2|" + q)
    stale(P, R)
    R.assumption("A call may raise iff a raise is reachable from it in the call graph (allocation failure excluded).")

X = "frt_xcontext_t."
class Chain(Client):
    """facts about the frame chain along a path; state: frozenset of (name, value), each name once"""
    def __init__(self, P, f, ends):
        Client.__init__(self, P); self.f = f; self.ends = ends
    def obj(self, e):
        if e == ("const", 0): return "null"
        if e[0] == "arg": return "arg%d" % e[1]
        if e[0] == "call" and e[1].callee == "pthread_getspecific": return "top"
        if e[0] == "load":
            a = e[1]
            if a[0] == "alloca":        # a volatile copy: what was stored in it
                vs = {self.obj(self.P.expr(self.f, i.ops[0])) for i in self.f.insts() if i.op == "store" and i.ops[1] == a[1]}
                return vs.pop() if len(vs) == 1 else "?"
            if a[0] == "field" and a[2].startswith(X) and "|" not in a[2]: return self.obj(a[1]) + "." + a[2][len(X):]
        if e[0] == "const": return str(e[1])
        return "?"
    def put(self, st, k, v): return frozenset(x for x in st if x[0] != k) | {(k, v)}
    def step(self, i, st):
        if i.op == "store":
            a = self.P.expr(self.f, i.ops[1])
            if a[0] == "field" and a[2].startswith(X):
                b = self.P.bit_write(self.f, i)
                o = self.obj(a[1])
                if b: return self.put(st, o + "." + b[0][len(X):], str(b[1][1]) if b[1][0] == "const" else "?")
                return self.put(st, o + "." + a[2][len(X):], self.obj(self.P.expr(self.f, i.ops[0])))
        return st
    def branch(self, i, cond, taken, st):
        e = self.P.expr(self.f, cond)
        if e[0] == "cmp" and e[2] == ("const", 0): e = (e[0], e[1], e[3], e[2])
        if e[0] == "cmp" and e[1] in ("eq", "ne") and e[3] == ("const", 0):
            nz = taken == (e[1] == "ne")
            b = self.P.bit_read(e[2])
            if b and b.startswith(X):
                ld = e[2]
                while ld[0] == "bin": ld = ld[2]
                return self.put(st, "was:%s.%s" % (self.obj(ld[1][1]), b[len(X):]), "1" if nz else "0")
            o = self.obj(e[2])
            if o != "?": return self.put(st, "nonnull:" + o, "1" if nz else "0")
        return st
    def call(self, i, st):
        c = i.callee if i.extra == "direct" else None
        ex = [self.obj(self.P.expr(self.f, o)) for o in i.ops]
        if c == "pthread_setspecific": return [self.put(st, "chain", ex[1])], None
        if c in ("longjmp", "_longjmp", "siglongjmp", "__longjmp_chk"):
            a = self.P.expr(self.f, i.ops[0])
            if a[0] == "index": a = a[1]
            o = self.obj(a[1]) if a[0] == "field" and a[2] == X + "jbuf" else "?"
            self.ends.append(("jump", o, ex[1], dict(st), i)); return [], []
        if c == "frt_xraise":
            self.ends.append(("raise", ex[0], ex[1], dict(st), i)); return [self.put(st, "raised", "1")], []
        if c in ("exit", "_exit", "abort", "frt_xexit", "frt_vexit"):
            self.ends.append(("exit", None, None, dict(st), i)); return [], []
        return [st], []

def primitives(P, R):
    g0 = P.fn("frt_xpush_context")
    ll = dict(irbuild.build_core())[g0.mod.src]
    m = ir.parse(irbuild.inline(ll), g0.mod.src, P.repo)
    for n in ("frt_xpush_context", "frt_xpop_context", "frt_xraise"):
        f = m.funcs.get(n)
        if f is None: raise Exception("%s not found beside frt_xpush_context" % n)
        f.qname = f.short = n; R.analyse(f)
        ends = []
        cl = Chain(P, f, ends)
        explore(P, f, frozenset(), cl, on_exit=lambda k, st, i: ends.append(("ret", None, None, dict(st), i)) if k == "ret" else None)
        for kind, a, b, st, i in ends:
            why = judge(n, kind, a, b, st)
            R.check("R4", why is None, "%s:%s" % (f.file, i.line), n, "%s in order" % kind, why or "", key="R4|%s|%s" % (n, why))

def judge(n, kind, a, b, st):
    """None, or what is wrong with this way of leaving the primitive"""
    g = st.get
    if n == "frt_xpush_context":
        if kind != "ret": return "installing a frame ends in a %s" % kind
        if g("chain") != "arg0": return "returns without making the new frame the innermost one"
        if g("arg0.next") != "top": return "returns without linking the new frame to the one that was innermost"
        if g("arg0.handled") != "1": return "returns without marking the new frame as having no unhandled error"
        if g("arg0.in_finally") != "0": return "returns without marking the new frame as not cleaning up"
        return None
    if n == "frt_xpop_context":
        if kind == "exit": return None if g("nonnull:top.next") == "0" or g("nonnull:top") == "0" else "ends the process although an outer frame exists"
        if g("chain") != "top.next": return "a %s is reached before the outer frame is made the innermost one" % kind
        if kind == "ret":
            return None if g("was:top.handled") == "1" or g("raised") else "returns normally although the error was not handled"
        if g("was:top.handled") != "0": return "raises again although the error was handled"
        if kind == "raise":
            return None if (a, b) == ("top.excode", "top.msg") else "raises again with another code or message"
        # a direct jump
        if a != "top.next": return "jumps to a frame other than the outer one"
        if g("was:top.next.in_finally") != "0": return "jumps into the outer section although it is already cleaning up"
        if g("top.next.excode") != "top.excode" or g("top.next.msg") != "top.msg" or b not in ("top.excode", "top.next.excode"):
            return "jumps with another code or message"
        return None if g("top.next.handled") == "0" else "jumps without marking the error unhandled"
    if kind == "exit": return None if g("nonnull:top") == "0" else "ends the process although a frame is installed"
    stored = g("top.excode") == "arg0" and g("top.msg") == "arg1" and g("top.handled") == "0"
    if kind == "jump":
        if a != "top": return "jumps to a frame other than the innermost one"
        if b not in ("arg0", "top.excode"): return "jumps with something other than the error code"
        if g("was:top.in_finally") != "0": return "jumps into a section that is already cleaning up"
        return None if stored else "jumps without recording code and message and marking the error unhandled"
    if kind == "ret":
        if g("was:top.in_finally") != "1": return "returns to the code that raised although the frame is not cleaning up"
        return None if stored or g("was:top.handled") == "0" else "returns without recording the error"
    return "raises through itself"

def stale(P, R):
    """R3 on the unpromoted IR, where each local is a memory cell and volatile accesses are marked."""
    mods = irbuild.build_raw([m.src for m in P.mods if any(c.callee == "frt_xpush_context"
                              for f in m.funcs.values() for c in P.calls.get(f.qname, ()))])
    for src, ll in mods:
        m = ir.parse(ll, src, P.repo)
        for name, f in sorted(m.funcs.items()):
            calls = [i for i in f.insts() if i.op == "call"]
            if not any(c.callee == "frt_xpush_context" for c in calls): continue
            check_fn(P, R, m, f)

def check_fn(P, R, m, f):
    scalars = {i.res: i for i in f.insts() if i.op == "alloca" and not i.ty.startswith("[") and "struct" not in i.ty}
    # locals whose address escapes are re-read through memory by their users
    esc = set(); vol = set()
    for i in f.insts():
        for k, o in enumerate(i.ops):
            if o in scalars:
                if i.op == "load" or (i.op == "store" and k == 1):
                    if i.volatile: vol.add(o)
                elif i.op == "call" and (i.callee or "").startswith("llvm.dbg"): pass
                else: esc.add(o)
    bad = {}; touched = set()
    # locals assigned while a frame is active
    class T(Client):
        def step(self, i, st):
            if i.op == "call":
                if i.callee == "frt_xpush_context": return st + 1
                if i.callee == "frt_xpop_context": return max(0, st - 1)
            if st and i.op == "store" and i.ops[1] in scalars and i.ops[1] not in esc: touched.add(i.ops[1])
            return st
    explore(P, f, 0, T(P), max_states=400000)
    class Cl(Client):
        """one variable; state: (tuple of 'assigned since this frame's setjmp' flags, stale)"""
        def step(self, i, st):
            lv, stale = st
            if i.op == "call":
                if i.callee == "frt_xpush_context": return (lv + (False,), stale)
                if i.callee == "frt_xpop_context" and lv:
                    top = lv[-1]; lv = lv[:-1]
                    if lv: lv = lv[:-1] + (lv[-1] or top,)
                    return (lv, stale)
            if i.op == "store" and i.ops[1] == self.v:
                return (lv[:-1] + (True,) if lv else lv, False)
            if stale and i.op == "load" and i.ops[0] == self.v: bad.setdefault(self.v, i)
            return st
        def on_raise(self, st):
            lv, stale = st
            return (lv, stale or lv[-1]) if lv else st
    for v in sorted(touched):
        if v in vol: continue
        cl = Cl(P); cl.v = v
        explore(P, f, ((), False), cl, max_states=400000)
    q = f.name
    for v in sorted(touched):
        nm = v.lstrip("%")
        if v in bad:
            R.bad("R3", "%s:%s" % (f.file, bad[v].line), q,
                  "`%s` is assigned in a protected section and read after an exception was caught there, but is not "
                  "volatile: the handler may see a stale value" % nm, key="R3|%s|%s" % (q, nm))
        else: R.ok("R3", "%s:%s" % (f.file, f.line), "%s: `%s` %s" % (q, nm, "is volatile" if v in vol else "is not read stale"))
