"""Liveness of documents: which paths have established that the current document is not deleted.

A state is (status, aliases): status 'L' (current document known live), 'U' (not known), 'N' (no
document is current); aliases remember which operand a boolean phi took."""
from prog import Client, explore, RV
import ir, collections

DEL = "deleted_docs"

class Live:
    def __init__(self, P):
        self.P = P
        self._sum = {}
        self.isdel_slot = "FrtIndexReader.is_deleted"
        self.isdel_fns = set(P.slots.get(self.isdel_slot, ()))

    # ------------------------------------------------------------ recognising the deletion bits
    def del_vec(self, f, v, depth=0):
        """the value is the vector of deleted documents of some segment"""
        P = self.P
        if not isinstance(v, str) or depth > 3: return False
        e = P.expr(f, v)
        while e[0] in ("load", "index"): e = e[1]
        if e[0] == "field": return e[2].endswith("." + DEL)
        if e[0] == "arg":
            cs = [c for c in P.callers[f.qname] if c.extra == "direct"]
            return bool(cs) and all(self.del_vec(c.fn, c.ops[e[1]], depth + 1) for c in cs if e[1] < len(c.ops))
        if e[0] == "phi": return all(self.del_vec(f, o, depth + 1) for o in e[1].ops if o != "null") and any(o != "null" for o in e[1].ops)
        return False

    def truth(self, f, v, al, depth=0):
        """'del' if v is true exactly when the document is deleted, '!del' for the negation,
        'null'/'!null' if v is (not) 'there are no deletions', else None"""
        P = self.P
        if depth > 8: return None
        for a, b in al:
            if a == v: return self.truth(f, b, al, depth + 1)
        d = f.defs.get(v)
        if d is None: return None
        if d.op in ("zext", "sext", "trunc", "freeze"): return self.truth(f, d.ops[0], al, depth + 1)
        if d.op == "xor" and d.ops[1] in ("true", "-1", "1"): return neg(self.truth(f, d.ops[0], al, depth + 1))
        if d.op == "and" and d.ops[1] == "1": return self.truth(f, d.ops[0], al, depth + 1)
        if d.op == "select" and d.ops[1] in ("true", "1") and d.ops[2] in ("false", "0"): return self.truth(f, d.ops[0], al, depth + 1)
        if d.op == "icmp" and d.extra in ("eq", "ne"):
            a, b = d.ops
            if a in ("0", "null", "false", "1", "true"): a, b = b, a
            if b in ("1", "true"):
                t = self.truth(f, a, al, depth + 1)
                return t if d.extra == "eq" else neg(t)
            if b not in ("0", "null", "false"): return None
            if b == "null" and self.del_vec(f, a): return "null" if d.extra == "eq" else "!null"
            t = self.truth(f, a, al, depth + 1)
            return neg(t) if d.extra == "eq" else t
        if d.op == "call":
            if d.extra == "direct":
                if d.callee == "frt_bv_get" and self.del_vec(f, d.ops[0]): return "del"
                t = P.lookup(f.mod, d.callee)
                if t is not None:
                    if t.qname in self.isdel_fns: return "del"
                    if t.ret in ("i1", "i8", "i32", "i64"): return self.predicate(t)
            elif P.slot(d) == self.isdel_slot: return "del"
        return None

    def predicate(self, t):
        """'del' / '!del' if t's result tells whether a document is deleted"""
        P = self.P
        if t.qname in self._sum: return self._sum[t.qname]
        self._sum[t.qname] = None
        if len(t.order) > 20: return None
        rets = [i for i in t.insts() if i.op == "ret" and i.ops and i.ops[0]]
        if not rets or not any(c.callee == "frt_bv_get" or P.slot(c) == self.isdel_slot for c in P.calls[t.qname]): return None
        ends = []
        def done(k, st, i):
            if k != "ret": return
            ends.append((cl.exit_k, st, i))
        cl = LiveClient(self, t, lambda i: None)
        explore(P, t, ("U", frozenset()), cl, on_exit=done)
        ok_del = ok_not = True
        for k, st, i in ends:
            tr = self.truth(t, i.ops[0], st[1])
            if k is not None:
                if k == 0 and st[0] != "L": ok_del = False
                if k != 0 and st[0] != "L": ok_not = False
            elif tr == "del": ok_not = False
            elif tr == "!del": ok_del = False
            else: ok_del = ok_not = False
        # 'del' means: false implies live
        r = "del" if ok_del and ends else "!del" if ok_not and ends else None
        self._sum[t.qname] = r
        return r

    def ensures(self, t, depth=0):
        """every normal return of t has established that a document is live"""
        k = ("ens", t.qname)
        if k in self._sum: return self._sum[k]
        self._sum[k] = False
        if t.internal and t.ret == "void" and len(t.order) <= 20:
            ends = []
            cl = LiveClient(self, t, lambda i: None)
            explore(self.P, t, ("U", frozenset()), cl, on_exit=lambda kind, st, i: ends.append(st[0]) if kind == "ret" else None)
            self._sum[k] = bool(ends) and set(ends) == {"L"}
        return self._sum[k]

    def tested(self, f, v, al, depth=0):
        """the document number whose liveness a condition tests, if visible"""
        for a, b in al:
            if a == v: return self.tested(f, b, al, depth + 1)
        d = f.defs.get(v)
        if d is None or depth > 8: return None
        if d.op == "call":
            if d.extra == "direct": return d.ops[1] if len(d.ops) > 1 else None
            return d.ops[1] if self.P.slot(d) == self.isdel_slot else None
        for o in d.ops:
            if isinstance(o, str) and o in f.defs:
                r = self.tested(f, o, al, depth + 1)
                if r: return r
        return None

def neg(t):
    if t is None: return None
    return t[1:] if t.startswith("!") else "!" + t

class LiveClient(Client):
    """advance(i) -> new status or None for every instruction"""
    def __init__(self, L, f, advance):
        self.L, self.f, self.advance = L, f, advance
    def step(self, i, st):
        n = self.advance(i)
        if n == "U" and i.op == "store" and ("#live", i.ops[0]) in st[1]: n = "L"      # the number was tested before it was stored
        return (n, st[1]) if n else st
    def call(self, i, st):
        n = self.advance(i)
        if n is None:
            if i.extra == "direct" and st[0] != "N":
                t = self.L.P.lookup(self.f.mod, i.callee)
                if t is not None and self.L.ensures(t): return [("L", st[1])], None
            return [st], None
        if isinstance(n, dict):
            # status by result: {1: .., 0: ..}
            return [RV((n[1], st[1]), 1), RV((n[0], st[1]), 0)], None
        return [(n, st[1])], None
    def phi(self, i, prev, st):
        if ("#live", i.res) in st[1]: st = (st[0], st[1] - {("#live", i.res)})
        if i.ty == "i1":
            v = next((v for v, b in i.extra if b == prev), None)
            al = frozenset(x for x in st[1] if x[0] != i.res)
            if v is not None and v in self.f.defs: al = al | {(i.res, v)}
            return (st[0], al)
        return st
    def branch(self, i, cond, taken, st):
        t = self.L.truth(self.f, cond, st[1])
        if t in ("del", "!del"):
            live = (t == "del") != taken
            if live:
                n = self.L.tested(self.f, cond, st[1])
                if n in self.f.defs: st = (st[0], frozenset(x for x in st[1] if x[0] != "#live") | {("#live", n)})
            return ("L" if live and st[0] != "N" else st[0], st[1])
        if t in ("null", "!null"):
            if (t == "null") == taken: return ("L" if st[0] != "N" else st[0], st[1])
        return st
