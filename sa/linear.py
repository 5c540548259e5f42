"""Linear forms over access paths, and the facts a branch establishes (integers)."""
from prog import Client

def lin(P, fn, v, depth=0):
    """value -> (dict atom->coeff, const) ; atoms are access paths or opaque value names"""
    return lin_e(P, fn, P.expr(fn, v))

def lin_e(P, fn, e):
    k = e[0]
    if k == "const": return {}, e[1]
    if k == "bin":
        op = e[1]
        if op in ("add", "sub"):
            a, ca = lin_e(P, fn, e[2]); b, cb = lin_e(P, fn, e[3])
            s = 1 if op == "add" else -1
            r = dict(a)
            for x, c in b.items():
                r[x] = r.get(x, 0) + s * c
                if r[x] == 0: del r[x]
            return r, ca + s * cb
        if op in ("mul", "shl"):
            a, ca = lin_e(P, fn, e[2]); b, cb = lin_e(P, fn, e[3])
            if op == "shl" and not b: return {x: c << cb for x, c in a.items()}, ca << cb
            if op == "mul":
                if not b: return {x: c * cb for x, c in a.items()}, ca * cb
                if not a: return {x: c * ca for x, c in b.items()}, cb * ca
    return {atom(P, fn, e): 1}, 0

def atom(P, fn, e):
    l = P.loc_e(fn, e)
    if "?" in l or l.endswith("~"):
        return "?" + repr_e(e)
    if e[0] == "load": return "*" + l
    return l

def repr_e(e):
    if not isinstance(e, tuple): return getattr(e, "res", None) or str(e)
    return "(" + ",".join(repr_e(x) for x in e) + ")"

NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}

def facts(P, fn, cond, taken):
    """facts (lin, const) meaning lin+const <= 0 that hold when `cond` evaluates to `taken`"""
    e = P.expr(fn, cond) if isinstance(cond, str) else cond
    return facts_e(P, fn, e, taken)

def facts_e(P, fn, e, taken):
    if e[0] == "cmp":
        pred, a, b = e[1], e[2], e[3]
        # (x != 0) around another comparison
        if b == ("const", 0) and a[0] in ("cmp",):
            if pred == "ne": return facts_e(P, fn, a, taken)
            if pred == "eq": return facts_e(P, fn, a, not taken)
        if not taken: pred = NEG.get(pred)
        if pred is None: return []
        la, ca = lin_e(P, fn, a); lb, cb = lin_e(P, fn, b)
        def sub(x, cx, y, cy):
            r = dict(x)
            for k, c in y.items():
                r[k] = r.get(k, 0) - c
                if r[k] == 0: del r[k]
            return frozenset(r.items()), cx - cy
        d, c = sub(la, ca, lb, cb); nd, nc = sub(lb, cb, la, ca)
        if pred in ("sle", "ule"): return [(d, c)]
        if pred in ("slt", "ult"): return [(d, c + 1)]
        if pred in ("sge", "uge"): return [(nd, nc)]
        if pred in ("sgt", "ugt"): return [(nd, nc + 1)]
        if pred == "eq": return [(d, c), (nd, nc)]
    if e[0] == "bin" and e[1] == "xor" and e[3] == ("const", 1):
        return facts_e(P, fn, e[2], not taken)
    return []

def entails(fs, need):
    """some single fact implies  need: lin+const<=0"""
    l, c = need
    return any(l2 == l and c2 >= c for l2, c2 in fs) or (not l and c <= 0)
