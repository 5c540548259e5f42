"""Abstract evaluation of comparison functions.

A comparison function is run over abstract elements: all that is known of a part of the elements is how
the elements rank in it (for every part, every weak order of the elements is tried).  Parts are named by
access path, so it does not matter how a comparison is spelled.  Nothing of the program is executed."""
import re, itertools
import ir
from prog import NORETURN, RAISE_FNS

class Need(Exception):
    def __init__(self, atom, dom): self.atom, self.dom = atom, dom
class Prune(Exception): pass
class Unsupported(Exception): pass

STRCMP = ("strcmp", "strcoll", "strcasecmp", "strncmp", "memcmp", "wcscmp", "strncasecmp")
CASTS = ("sext", "zext", "bitcast", "freeze", "ptrtoint", "inttoptr", "fpext", "sitofp", "uitofp", "addrspacecast")

def weak_orders(n):
    out = []
    for t in itertools.product(range(n), repeat=n):
        s = sorted(set(t))
        if s == list(range(len(s))): out.append(t)
    return out

def elems(k):
    """elements a key mentions"""
    if not isinstance(k, tuple): return frozenset()
    if k and k[0] == "E": return frozenset(k[1:])
    if k and k[0] == "sgn": return frozenset(k[3:5])
    r = frozenset()
    for x in k: r |= elems(x)
    return r

def canon(k):
    if not isinstance(k, tuple): return k
    if k and k[0] == "E": return ("E",)
    return tuple(canon(x) for x in k)

def fields(k):
    if not isinstance(k, tuple): return []
    if k and k[0] == "fld": return fields(k[1]) + [k[2]]
    return [y for x in k for y in fields(x)]

def show(k):
    if not isinstance(k, tuple): return str(k)
    if k[0] == "E": return "element"
    if k[0] == "ld": return show(k[2])
    if k[0] == "fld": return (show(k[1]) + "->" if k[1][0] != "E" else "") + k[2].split(".")[-1]
    if k[0] == "idx": return "%s[%s]" % (show(k[1]), show(k[2]))
    if k[0] == "cmpcall": return "%s(%s)" % (k[1].split(".")[-1], show(k[-1]))
    if k[0] == "call": return "%s()" % k[1].split(".")[-1]
    if k[0] in ("arg", "g"): return str(k[1])
    return "expr"

class Eval:
    """one evaluation under an assignment of atoms"""
    def __init__(self, P, n, env, loops=2, uniform=(), bind=None, pin=None):
        self.P, self.n, self.env, self.loops = P, n, env, loops
        self.uniform = dict(uniform); self.bind = {} if bind is None else bind; self.pin = pin or (lambda k: None)
        self.self_cmp = []; self.mixed = []; self.truncated = []; self.ranks = set()

    # -------- questions
    def ask(self, atom, dom):
        if atom in self.env: return self.env[atom]
        raise Need(atom, dom)

    def rank(self, ck, a, b):
        self.ranks.add(ck)
        r = self.ask(("rank", ck), weak_orders(self.n))
        return (r[a] > r[b]) - (r[a] < r[b])

    def sign(self, x, y):
        """sign of x - y"""
        if isinstance(x, bool): x = int(x)
        if isinstance(y, bool): y = int(y)
        if isinstance(x, int) and isinstance(y, int): return (x > y) - (x < y)
        if isinstance(x, int): return -self.sign(y, x)
        if x[0] == "not" and y == 0: return 0 if self.truth(x[1]) else 1
        if x[0] == "sgn":
            s = x[2] * self.rank(x[1], x[3], x[4])
            if isinstance(y, int):
                if y == 0: return s
                if (y > 0) != (s > 0) or s == 0: return s if s else (-1 if y > 0 else 1)
                return self.ask(("mag", x[1:], y), (-1, 0, 1))
            return self.ask(("mag", x[1:], y), (-1, 0, 1))
        if isinstance(y, int) or (isinstance(y, tuple) and y and y[0] == "fk"):
            return self.unary(x, y)
        if y[0] == "sgn": return -self.sign(y, x)
        ex, ey = elems(x), elems(y)
        if x == y:
            if ex: self.self_cmp.append(x)
            return 0
        if len(ex) == 1 and len(ey) == 1 and ex != ey:
            if canon(x) == canon(y):
                return self.rank(canon(x), min(ex), min(ey))
            self.mixed.append((x, y))
            a, b = (x, y) if min(ex) < min(ey) else (y, x)
            s = self.ask(("mix", a, b), (-1, 0, 1))
            return s if a is x else -s
        if not ex and not ey: return self.ask(("ctx", x, y), (-1, 0, 1))
        return self.ask(("two", x, y), (-1, 0, 1))

    def unary(self, x, c):
        ex = elems(x)
        p = self.pin(x)
        if p is not None and isinstance(c, int): return (p > c) - (p < c)
        f = fields(x)
        if len(ex) <= 1 and f and f[-1] in self.uniform and x[0] in ("ld", "bit") and isinstance(c, int):
            p = self.ask(("uni", canon(x)), self.uniform[f[-1]])
            return (p > c) - (p < c)
        dom = (0, 1) if c == 0 and x[0] == "ld" and x[1] == "ptr" or x[0] == "bit" else (-1, 0, 1)
        return self.ask(("un", x, c), dom)

    # -------- run
    def call(self, fn, args, depth=0):
        P = self.P
        if depth > 6: raise Unsupported("call depth")
        val = {}; mem = self.mem
        for a, v in zip(fn.args, args): val[a] = v
        def V(o):
            if o in val: return val[o]
            if not isinstance(o, str): return ("?", str(o))
            if o in ("null", "false"): return 0
            if o == "true": return 1
            if re.match(r'^-?\d+$', o): return int(o)
            if o in ("undef", "poison", "zeroinitializer"): return ("?", o)
            if re.match(r'^-?\d+\.\d+e', o) or o.startswith("0x"):
                return 0 if o.startswith("0.0") else ("fk", o)
            if o.startswith("@"): return ("g", o[1:].strip('"'))
            return ("?", fn.qname, o)
        bn = fn.order[0]; prev = None; seen = {}
        while True:
            seen[bn] = seen.get(bn, 0) + 1
            if seen[bn] > self.loops + 1: raise Prune()
            b = fn.blocks[bn]
            new = {}
            for i in b.insts:
                if i.op != "phi": break
                for o, p in i.extra:
                    if p == prev: new[i.res] = V(o)
            val.update(new)
            nxt = None
            for i in b.insts:
                op = i.op
                if op == "phi": continue
                if op == "ret": return V(i.ops[0]) if i.ops else None
                if op == "br":
                    if len(i.extra) == 1: nxt = i.extra[0]
                    else: nxt = i.extra[0] if self.truth(V(i.ops[0])) else i.extra[1]
                elif op == "switch":
                    v = V(i.ops[0]); nxt = i.extra[0]
                    for c, l in i.extra[1]:
                        if self.sign(v, int(c)) == 0: nxt = l; break
                elif op == "unreachable": raise Prune()
                elif op == "icmp" or op == "fcmp":
                    s = self.sign(V(i.ops[0]), V(i.ops[1])); p = i.extra
                    p = p[1:] if p[0] in "suo" and len(p) == 3 else p
                    val[i.res] = int({"eq": s == 0, "ne": s != 0, "gt": s > 0, "ge": s >= 0, "lt": s < 0, "le": s <= 0, "ord": True, "uno": False}[p])
                elif op == "select": val[i.res] = V(i.ops[1]) if self.truth(V(i.ops[0])) else V(i.ops[2])
                elif op == "alloca": val[i.res] = ("al", fn.qname, i.res, depth)
                elif op == "load":
                    p = V(i.ops[0])
                    val[i.res] = mem[p] if p in mem else ("ld", i.ty, p)
                elif op == "store": mem[V(i.ops[1])] = V(i.ops[0])
                elif op == "getelementptr": val[i.res] = self.gep(fn, i, V)
                elif op in CASTS: val[i.res] = V(i.ops[0])
                elif op in ("trunc", "fptrunc", "fptosi", "fptoui"):
                    v = V(i.ops[0])
                    if isinstance(v, int) or i.ty in ("i1",): val[i.res] = v
                    else:
                        if v[0] == "sgn" or len(elems(v)) > 1: self.truncated.append((i, v))
                        val[i.res] = ("trunc", i.ty, v)
                elif op == "call":
                    r = self.docall(fn, i, V, depth)
                    if i.res: val[i.res] = r
                elif op in ("sub", "fsub"): val[i.res] = self.sub(V(i.ops[0]), V(i.ops[1]))
                elif op in ("mul", "fmul"):
                    a, c = V(i.ops[0]), V(i.ops[1])
                    if isinstance(a, int) and not isinstance(c, int): a, c = c, a
                    if isinstance(a, tuple) and a[0] == "sgn" and isinstance(c, int):
                        val[i.res] = 0 if c == 0 else ("sgn", a[1], a[2] if c > 0 else -a[2], a[3], a[4])
                    else: val[i.res] = self.bin(op, a, c)
                elif op == "fneg": val[i.res] = self.sub(0, V(i.ops[0]))
                elif len(i.ops) == 2: val[i.res] = self.bin(op, V(i.ops[0]), V(i.ops[1]))
                elif i.res: val[i.res] = ("op", op) + tuple(V(o) for o in i.ops if isinstance(o, str))
            if nxt is None: raise Prune()
            prev, bn = bn, nxt

    def truth(self, v):
        if isinstance(v, int): return v != 0
        return self.sign(v, 0) != 0

    def bin(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            f = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
                 "shl": lambda: a << b, "lshr": lambda: a >> b, "ashr": lambda: a >> b}.get(op)
            if f: return f()
        if op in ("add", "or", "shl", "lshr", "ashr", "xor") and b == 0: return a
        if op == "xor" and b in (1, True) : return ("not", a)
        # members of bit-fields
        n = self.bitname(op, a, b)
        if n: return n
        return ("b", op, a, b)

    def bitname(self, op, a, b):
        if not isinstance(b, int) or not isinstance(a, tuple): return None
        if op == "and" and b == 1 and a[0] == "sh": return self.bit(a[1], a[2])
        if op in ("lshr", "ashr") and a[0] == "ld" and a[2][0] == "fld" and "|" in a[2][2]: return ("sh", a, b)
        if op == "and" and a[0] == "ld" and a[2][0] == "fld" and "|" in a[2][2] and b > 0 and b & (b - 1) == 0: return self.bit(a, b.bit_length() - 1)
        if op == "and" and b == 1 and a[0] == "ld" and a[2][0] == "fld": return ("bit", a[2])
        if op == "shl" and a[0] == "ld": return ("shl", a, b)
        if op in ("ashr", "lshr") and a[0] == "shl" and a[1][2][0] == "fld" and "|" in a[1][2][2]:
            w = int(a[1][1][1:]); return self.bit(a[1], w - 1 - a[2])
        return None

    def bit(self, ld, lo):
        n = self.P._bitname(ld[2][2], lo)
        return ("bit", ("fld", ld[2][1], n)) if n else ("b", "bit", ld, lo)

    def sub(self, a, b):
        if isinstance(a, int) and isinstance(b, int): return a - b
        if a == 0 and isinstance(b, tuple) and b[0] == "sgn": return ("sgn", b[1], -b[2], b[3], b[4])
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a == b:
                if elems(a): self.self_cmp.append(a)
                return 0
            ea, eb = elems(a), elems(b)
            if a[0] != "sgn" and b[0] != "sgn" and len(ea) == 1 and len(eb) == 1 and ea != eb:
                if canon(a) == canon(b): return ("sgn", canon(a), 1, min(ea), min(eb))
                self.mixed.append((a, b))
        return ("b", "sub", a, b)

    def gep(self, fn, g, V):
        b = V(g.ops[0]); t = g.ty; m = fn.mod; P = self.P
        for k, ix in enumerate(g.ops[1:]):
            v = V(ix)
            if k == 0:
                if v != 0: b = ("idx", b, v, t)
                continue
            if t.startswith("%struct") or t.startswith('%"struct'):
                nm = t.lstrip("%").strip('"'); fl = m.fields.get(nm); n = int(ix)
                if fl is None: b = ("fld", b, "%s.%d" % (nm, n)); t = P._elt(m, t, n); continue
                name, et, bits = fl[n]
                if not (n == 0 and et.startswith("%struct")): b = ("fld", b, "%s.%s" % (re.sub(r'\.\d+$', '', nm[7:]), name))
                t = et
            elif t.startswith("["):
                t = re.match(r'\[\d+ x (.*)\]$', t).group(1)
                if v != 0: b = ("idx", b, v, t)
            elif t.startswith("%union"): t = P._elt(m, t, int(ix))
            else:
                if v != 0: b = ("idx", b, v, t)
        return b

    def docall(self, fn, c, V, depth):
        P = self.P
        if c.extra == "direct" and c.callee.startswith("llvm."):
            if c.callee.startswith("llvm.memcpy"): raise Unsupported("memcpy")
            return ("op", c.callee) + tuple(V(o) for o in c.ops if isinstance(o, str)) if c.res else None
        if c.extra == "direct" and (c.callee in NORETURN or c.callee in RAISE_FNS): raise Prune()
        args = [V(o) for o in c.ops if isinstance(o, str) and not o.startswith("metadata")]
        name = c.callee if c.extra == "direct" else (P.slot(c) or "?")
        t = None
        if c.extra == "direct": t = P.lookup(fn.mod, c.callee)
        else:
            t = self.bind.get(name)
            if t is None:
                pv = V(c.callee)
                if isinstance(pv, tuple) and pv[0] == "g": t = P.lookup(fn.mod, pv[1])
        if t is not None:
            if t.qname in P.noreturn: raise Prune()
            return self.call(t, args, depth + 1)
        def single(x): return isinstance(x, tuple) and len(elems(x)) == 1
        se = [k for k, x in enumerate(args) if single(x)]
        if len(se) == 2 and elems(args[se[0]]) != elems(args[se[1]]) and (name in STRCMP or c.extra != "direct"):
            a, b = args[se[0]], args[se[1]]
            if canon(a) == canon(b):
                rest = tuple(x for k, x in enumerate(args) if k not in se)
                return ("sgn", ("cmpcall", name, rest, canon(a)), 1, min(elems(a)), min(elems(b)))
            self.mixed.append((a, b))
        if len(se) == 2 and name in STRCMP and args[se[0]] == args[se[1]]: self.self_cmp.append(args[se[0]])
        return ("call", name) + tuple(args)

    mem = None

def consistent(env, n):
    """elements that rank equal in a part look alike in it, and its tests against constants are monotone"""
    for a, r in env.items():
        if a[0] != "un": continue
        x, c = a[1], a[2]; e = elems(x)
        if len(e) != 1: continue
        ck = canon(x)
        for b, r2 in env.items():
            if b[0] == "un" and b is not a and b[2] == c and canon(b[1]) == ck:
                o = env.get(("rank", ck))
                if o:
                    i, j = min(e), min(elems(b[1]))
                    if o[i] == o[j] and r != r2: return False
                    if o[i] < o[j] and r > r2 or o[i] > o[j] and r < r2: return False
    return True

def enumerate_(P, n, body, limit=60000, **kw):
    """body(make) is run under every consistent assignment; make() gives an evaluator.  Yields (env, result)."""
    stack = [{}]; count = 0
    while stack:
        env = stack.pop(); count += 1
        if count > limit: raise Unsupported("too many cases")
        evs = []
        def make():
            e = Eval(P, n, env, **kw); e.mem = {}; evs.append(e); return e
        try:
            r = body(make)
        except Need as q:
            for d in q.dom:
                e2 = dict(env); e2[q.atom] = d
                if consistent(e2, n): stack.append(e2)
            continue
        except Prune:
            continue
        yield env, r, evs
