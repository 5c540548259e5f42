"""Interprocedural typestate: run an event automaton over the program with (function, state) summaries.

An Events object maps call instructions to transitions; states are hashable.  Functions that cannot
reach any event are skipped.  Exceptional exits are followed through the callers' handlers."""
from prog import Client, explore, RV

class Events:
    """Override.  event(call, state) -> None (not an event) or (list of normal states, list of raise states)"""
    def event(self, P, c, st): return None
    def is_event(self, P, c): return False      # cheap, state-independent: used to find relevant functions
    def enter(self, P, c, t, st): return st     # state mapping at a call into t
    def leave(self, P, c, t, st): return st     # ... and back
    def step(self, P, i, st): return st
    def phi(self, P, i, prev, st): return st
    def branch(self, P, i, cond, taken, st): return st
    def skip(self, P, c, t): return False       # do not descend into t
    virtual = True
    rets = False                                # correlate callees' constant return values with their end states
    extra = ()                                  # further functions to descend into

class Engine:
    def __init__(self, P, ev, max_states=200000):
        self.P, self.ev = P, ev
        self.max_states = max_states
        self.memo = {}
        self.deps = {}
        self.rel = self._relevant()
        self.visited = set()

    def _relevant(self):
        P = self.P
        rel = {q for q, cs in P.calls.items() if any(self.ev.is_event(P, c) for c in cs)} | set(self.ev.extra)
        work = list(rel)
        while work:
            q = work.pop()
            for c in P.callers[q]:
                if not self.ev.virtual and c.extra != "direct": continue
                if self.ev.skip(P, c, P.funcs[q]): continue
                if c.fn.qname not in rel:
                    rel.add(c.fn.qname); work.append(c.fn.qname)
        return rel

    def run(self, f, st):
        """-> (frozenset of states at normal return, frozenset at raise)"""
        for _ in range(12):
            self.changed = False
            self.stack = set(); self.fresh = set()
            r = self._sum(f, st)
            if not self.changed: break
        return frozenset(x for x, k in r[0]), r[1]

    def _sum(self, f, st):
        key = (f.qname, st)
        if key in self.fresh or key in self.stack:
            return self.memo.get(key, (frozenset(), frozenset()))
        self.stack.add(key)
        self.visited.add(f.qname)
        ret, exc = set(), set()
        eng = self
        P = self.P
        class Cl(Client):
            split_ret = eng.ev.rets
            def step(self, i, s): return eng.ev.step(P, i, s)
            def phi(self, i, prev, s): return eng.ev.phi(P, i, prev, s)
            def branch(self, i, cond, taken, s): return eng.ev.branch(P, i, cond, taken, s)
            def call(self, i, s):
                r = eng.ev.event(P, i, s)
                if r is not None: return r
                if i.extra != "direct" and not eng.ev.virtual: return [s], None
                ts = P.targets(i)
                rs = [t for t in ts if t.qname in eng.rel and not eng.ev.skip(P, i, t)]
                if not rs: return [s], None
                n, e = set(), set()
                if len(rs) < len(ts): n.add((s, None)); e.add(s)
                for t in rs:
                    a, b = eng._sum(t, eng.ev.enter(P, i, t, s))
                    eng.ev.cur = s          # the caller's state, for leave()
                    n |= {(eng.ev.leave(P, i, t, x), k) for x, k in a}
                    e |= {eng.ev.leave(P, i, t, x) for x in b}
                return [RV(x, k) for x, k in sorted(n, key=repr)], sorted(e, key=repr)
        cl = Cl(P)
        def done(k, s, i):
            if k == "ret": ret.add((s, cl.exit_k if eng.ev.rets else None))
            else: exc.add(s)
        explore(P, f, st, cl, on_exit=done, max_states=self.max_states)
        self.stack.discard(key)
        res = (frozenset(ret), frozenset(exc))
        old = self.memo.get(key, (frozenset(), frozenset()))
        res = (res[0] | old[0], res[1] | old[1])
        if res != old:
            self.memo[key] = res; self.changed = True
        self.fresh.add(key)
        return res
