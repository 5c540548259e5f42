"""Structural value keys and linear forms (for helper-inlined IR), loops, dominance.

A key names what a value is, not where it was computed: two loads of the same access path have the
same key (memory between them is taken to be unchanged).  Phis and calls are opaque."""
import re, ir

class Sym:
    def __init__(self, P, f):
        self.P, self.f = P, f
        self._k = {}
        self._dom = None

    def strip(self, v):
        f = self.f
        while True:
            d = f.defs.get(v)
            if d is None: return v
            if d.op in ("sext", "zext", "trunc", "bitcast", "freeze"): v = d.ops[0]; continue
            if d.op == "phi":
                vs = {self.strip0(o) for o in d.ops if o != v}
                if len(vs) == 1:
                    n = next(iter(vs))
                    if n != v: v = n; continue
            return v

    def strip0(self, v):
        f = self.f
        d = f.defs.get(v)
        while d is not None and d.op in ("sext", "zext", "trunc", "bitcast", "freeze"): v = d.ops[0]; d = f.defs.get(v)
        return v

    def key(self, v, depth=0):
        if not isinstance(v, str): return ("?",)
        v = self.strip(v)
        if v in self._k: return self._k[v]
        k = self._key(v, depth)
        self._k[v] = k
        return k

    def _key(self, v, depth):
        f, P = self.f, self.P
        if depth > 30: return ("?", v)
        if v in ("null", "false"): return ("k", 0)
        if v == "true": return ("k", 1)
        if re.match(r'^-?\d+$', v): return ("k", int(v))
        if v.startswith("@"): return ("g", v[1:])
        if v in f.args: return ("arg", f.args.index(v))
        d = f.defs.get(v)
        if d is None: return ("?", v)
        if d.op == "load": return ("ld", self.key(d.ops[0], depth + 1))
        if d.op == "getelementptr":
            b = self.key(d.ops[0], depth + 1)
            if d.ty == "i8" or not d.ty.startswith(("%", "[")):
                if len(d.ops) == 2: return self.idx(b, self.lin(d.ops[1]), d.ty)
            names = [n for n in P.field_of_gep(f, d)]
            dyn = [o for n, o in enumerate(d.ops[1:]) if not re.match(r'^-?\d+$', o) or (n == 0 and o != "0")]
            if d.ops[1] != "0": b = self.idx(b, self.lin(d.ops[1]), d.ty)
            for n in names:
                if n == "[]":
                    continue
                b = ("fld", b, n)
            rest = [o for o in dyn if o != d.ops[1] or (d.ops[1] == "0")]
            if d.ops[1] in rest: rest.remove(d.ops[1])
            for o in rest: b = self.idx(b, self.lin(o), "el")
            return b
        if d.op == "call": return ("call", d.uid)
        if d.op == "phi": return ("phi", v)
        if d.op == "select": return ("sel", v)
        if d.op == "alloca": return ("loc", v)
        if d.op in ("add", "sub", "mul", "shl"):
            return ("lin", self.freeze(self.lin(v)))
        if d.op == "or" and d.ops[1].isdigit(): return ("or", self.key(d.ops[0], depth + 1), ("k", int(d.ops[1])))
        return (d.op, d.extra if isinstance(d.extra, str) else None) + tuple(self.key(o, depth + 1) for o in d.ops)

    def idx(self, b, l, ty):
        if not l[0] and l[1] == 0: return b
        if b[0] == "at" and b[3] == ty:      # &a[i][j]-style pointer steps add up
            l0 = (dict(b[2][0]), b[2][1])
            l = add(l0, l, 1); b = b[1]
            if not l[0] and l[1] == 0: return b
        return ("at", b, self.freeze(l), ty)

    def freeze(self, l): return (tuple(sorted(l[0].items(), key=repr)), l[1])

    def lin(self, v):
        v = self.strip(v)
        d = self.f.defs.get(v)
        if d is not None and d.op in ("add", "sub"): return add(self.lin(d.ops[0]), self.lin(d.ops[1]), 1 if d.op == "add" else -1)
        if d is not None and d.op in ("mul", "shl"):
            a, b = self.lin(d.ops[0]), self.lin(d.ops[1])
            if not b[0]:
                m = b[1] if d.op == "mul" else (1 << b[1] if 0 <= b[1] < 32 else 1)
                return {x: c * m for x, c in a[0].items()}, a[1] * m
            if d.op == "mul" and not a[0]: return {x: c * a[1] for x, c in b[0].items()}, b[1] * a[1]
        k = self.key(v) if not (d is not None and d.op in ("add", "sub", "mul", "shl")) else (d.op,) + tuple(self.key(o) for o in d.ops)
        if k[0] == "k": return {}, k[1]
        return {k: 1}, 0

    # ------------------------------------------------------------ comparisons
    def facts(self, cond, taken, depth=0):
        """[(lin<=0)] implied when i1 value `cond` is `taken`"""
        if depth > 6: return []
        d = self.f.defs.get(cond)
        if d is None: return []
        if d.op in ("freeze", "zext", "trunc"): return self.facts(d.ops[0], taken, depth + 1)
        if d.op == "xor" and d.ops[1] in ("true", "1", "-1"): return self.facts(d.ops[0], not taken, depth + 1)
        if d.op == "icmp":
            pred = d.extra
            if d.ops[1] in ("0", "false") and pred in ("eq", "ne") and self.f.defs.get(d.ops[0]) is not None \
               and self.f.defs[d.ops[0]].op in ("zext", "icmp", "xor", "phi") and (self.f.defs[d.ops[0]].op != "zext" or self.f.defs[d.ops[0]].extra == "i1") \
               and (self.f.defs[d.ops[0]].op != "phi" or self.f.defs[d.ops[0]].ty == "i1"):
                return self.facts(d.ops[0], taken if pred == "ne" else not taken, depth + 1)
            if not taken: pred = NEG[pred]
            l = add(self.lin(d.ops[0]), self.lin(d.ops[1]), -1); n = add(({}, 0), l, -1)
            p = pred[1:] if pred not in ("eq", "ne") else pred
            if p == "le": return [l]
            if p == "lt": return [(l[0], l[1] + 1)]
            if p == "ge": return [n]
            if p == "gt": return [(n[0], n[1] + 1)]
            if p == "eq": return [l, n]
        if d.op == "phi" and d.ty == "i1":
            # a && b  /  a || b : the incoming constant tells which way was not taken
            out = []
            for o, b in d.extra:
                if o in ("true", "false"):
                    if (o == "true") == taken: return []
                    continue
                x = self.facts(o, taken, depth + 1)
                # the edge into the evaluating block carries the other operand
                x = x + self.edge_facts(b)
                out.append(x)
            return out[0] if len(out) == 1 else []
        return []

    def edge_facts(self, b, stop=None, limit=40):
        """facts that hold on entry to block b: conditions on its chain of dominating single-predecessor edges"""
        out = []; n = 0
        dom = self.dom()
        x = b
        while x is not None and n < limit:
            n += 1
            ps = self.f.blocks[x].preds
            if len(ps) == 1:
                p = ps[0]; t = self.f.blocks[p].term
                if t.op == "br" and len(t.extra) == 2 and t.extra[0] != t.extra[1]:
                    out += self.facts(t.ops[0], t.extra[0] == x)
                x = p
            else:
                x = dom.get(x)
            if x == stop: break
        return out

    # ------------------------------------------------------------ dominators and loops
    def dom(self):
        if self._dom is not None: return self._dom
        f = self.f; order = []
        seen = set(); st = [(f.order[0], iter(f.blocks[f.order[0]].succs))]; seen.add(f.order[0])
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(f.blocks[s].succs))); break
            else: order.append(b); st.pop()
        rpo = order[::-1]; num = {b: n for n, b in enumerate(rpo)}
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in f.blocks[b].preds if p in idom]
                if not ps: continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while num[a] > num[c]: a = idom[a]
                        while num[c] > num[a]: c = idom[c]
                    n = a
                if idom.get(b) != n: idom[b] = n; ch = True
        idom[rpo[0]] = None
        self._dom = idom; self.num = num
        return idom

    def dominates(self, a, b):
        d = self.dom()
        while b is not None:
            if a == b: return True
            b = d.get(b)
        return False

    def loops(self):
        """header -> set of blocks"""
        f = self.f; out = {}
        for b in self.dom():
            for s in f.blocks[b].succs:
                if self.dominates(s, b):
                    body = out.setdefault(s, {s}); w = [b]
                    while w:
                        x = w.pop()
                        if x in body: continue
                        body.add(x); w += f.blocks[x].preds
        return out

    def reaches(self, a, targets, avoid=(), start_succ=False):
        """can control get from block a to one of targets without entering `avoid`?"""
        seen = set(); w = list(self.f.blocks[a].succs) if start_succ else [a]
        while w:
            x = w.pop()
            if x in seen or x in avoid: continue
            seen.add(x)
            if x in targets: return True
            w += self.f.blocks[x].succs
        return False

NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}

def add(a, b, s):
    r = dict(a[0])
    for x, c in b[0].items():
        r[x] = r.get(x, 0) + s * c
        if r[x] == 0: del r[x]
    return r, a[1] + s * b[1]

def entails(facts, need):
    """one fact lin+c<=0 implies need"""
    return any(l[0] == need[0] and l[1] >= need[1] for l in facts)
