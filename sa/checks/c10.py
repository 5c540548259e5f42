"""C10: every object has every operation that can be invoked on it."""
import collections, re
import flow, ir
RUBY = True

def guarded(P, c, slot):
    """the calling function tests this operation pointer against null"""
    f = c.fn
    for i in f.insts():
        if i.op == "icmp" and "null" in i.ops:
            for o in i.ops:
                if o != "null":
                    e = P.expr(f, o)
                    if e[0] == "load" and e[1][0] == "field" and e[1][2] == slot: return True
    return False

def run(P, R):
    R.rule("R1", "an operation invoked through an object's operation pointer is set (to a function, on every path of the "
                 "constructor) in every kind of object that can reach the call", floor=400)
    R.rule("R2", "an object a caller of the library can obtain has every operation of its interface set, or explicitly "
                 "set to NULL", floor=150)
    R.rule("R3", "every entry of a constant operation table that some call goes through is set", floor=20)
    R.rule("R4", "a function installed as an operation takes as many arguments as its callers pass", floor=400)
    F = flow.Flow(P); S = F.S
    reach = F.reachable()
    allslots = collections.defaultdict(set)
    for s in P.slots: allslots[s.split(".")[0]].add(s)
    unguarded = collections.defaultdict(list); used = collections.defaultdict(list)
    for q, cs in sorted(P.calls.items()):
        f = P.funcs[q]
        for c in cs:
            if c.extra == "direct": continue
            r = F.receiver(c)
            if not r: continue
            n, st, slot = r
            used[slot].append(c)
            for t in F._vt(c):
                R.check("R4", len(t.args) == len(c.ops), "%s:%s" % (f.file, c.line), q, "%s -> %s, %d argument(s)" % (slot, t.qname, len(c.ops)),
                        "%s is called with %d argument(s) but %s takes %d" % (slot, len(c.ops), t.qname, len(t.args)), key="R4|%s|%s" % (slot, t.qname))
            g = guarded(P, c, slot)
            if not g: unguarded[slot].append(c)
            if q not in reach or not F.typed.get(st): continue
            R.analyse(f)
            objs = F.recv_objects(c)
            known = bool(objs)
            if not objs:
                # objects that cross the extension boundary are ones callers can hold
                objs = {o for o in F.concrete(st) if o in F.seed or not f.file.startswith("ruby/")}
            # an operation that forwards to the same operation of the object's parts: the parts were made for that role
            forwards = q in P.slots.get(slot, ())
            for o in sorted(objs):
                if o in F.abstract and not known: continue
                v = S[o].get(slot)
                if v is None and "#zero" in S[o] and g: v = {"null"}
                nul = v is not None and "null" in v
                where = "%s:%s" % (f.file, c.line)
                if v is None:
                    R.bad("R1", where, q, "%s is called on objects made by %s, which does not set it" % (slot.replace(".", "->"), o),
                          key="R1|%s|%s" % (slot, o))
                elif nul and not g and not forwards and known:
                    R.bad("R1", where, q, "%s is called on objects made by %s, where it can be NULL" % (slot.replace(".", "->"), o),
                          key="R1|%s|%s" % (slot, o))
                else: R.ok("R1", where, "%s: %s on %s -> %s" % (q, slot, o, "/".join(sorted(v))))
    for o in sorted(F.seed):
        if o in F.abstract: continue
        f = P.funcs[o]
        for st in sorted({k.split(".")[0] for k in S.get(o, {}) if k in P.slots}):
            for s in sorted(allslots[st]):
                if s in S[o] or ("#zero" in S[o] and used[s] and not unguarded[s]):
                    R.ok("R2", "%s:%s" % (f.file, f.line), "%s sets %s" % (o, s))
                else:
                    R.bad("R2", "%s:%s" % (f.file, f.line), o, "%s is left unset in the objects it returns" % s.replace(".", "->"),
                          key="R1|%s|%s" % (s, o))
    for m in P.mods:
        for g, txt in sorted(m.globals.items()):
            for st, body in structs(m, txt):
                fl = m.fields.get(st)
                if not fl: continue
                for (nm, t, b), p in zip(fl, ir.split_top(body)):
                    s = "%s.%s" % (st[7:], nm)
                    if s not in P.slots: continue
                    if re.match(r"ptr null$", p.strip()) and unguarded[s]:
                        c = unguarded[s][0]
                        R.bad("R3", "%s:%s" % (c.fn.file, c.line), c.fn.qname, "operation table %s has no %s, which is called here" % (g, nm),
                              key="R3|%s|%s" % (g, s))
                    else: R.ok("R3", g, s)
    R.assumption("Which objects reach a call is over-approximated by a field-based, flow-insensitive points-to analysis; casts between "
                 "an object and its embedded base are followed, pointer arithmetic and integers holding pointers are not.")
    R.assumption("An operation explicitly set to NULL is taken to be deliberately absent for callers of the library.")

def structs(m, txt):
    """(struct, initialiser) of a constant: one, or each of an array"""
    mm = re.search(r'(?:global|constant) (%struct\.[\w.]+|%"[^"]+") \{(.*)\}', txt)
    if mm: return [(mm.group(1).lstrip("%").strip('"'), mm.group(2))]
    mm = re.search(r'(?:global|constant) \[\d+ x (%struct\.[\w.]+)\] \[(.*)\]', txt)
    if mm:
        out = []
        for p in ir.split_top(mm.group(2)):
            x = re.match(r'\s*%struct\.[\w.]+ \{(.*)\}\s*$', p)
            if x: out.append((mm.group(1).lstrip("%"), x.group(1)))
        return out
    return []
