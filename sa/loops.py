"""Counting loops: does a loop's index take every value 0..count-1?"""
from sym import add

def bb(i): return i.bb.name

def counter(S, k):
    """index given as a frozen linear form -> (phi, offset, initial lin, step) or None"""
    atoms, c = k
    if len(atoms) != 1 or atoms[0][1] != 1 or atoms[0][0][0] != "phi": return None
    d = S.f.defs.get(atoms[0][0][1])
    if d is None or d.op != "phi": return None
    h = bb(d); init, step = None, None
    for o, b in d.extra:
        if S.dominates(h, b):
            l = add(S.lin(o), ({("phi", d.res): 1}, 0), -1)
            if l[0] or (step is not None and step != l[1]): return None
            step = l[1]
        else:
            l = S.lin(o)
            if init is not None and init != l: return None
            init = l
    if init is None or step is None or step == 0: return None
    return d, c, init, step

def covers(S, f, at, k, is_count):
    """at: the instruction that handles the element; k: its index.  None: not a counting loop this reads;
    '' : every element; otherwise what is wrong"""
    ct = counter(S, k)
    if ct is None: return None
    d, off, init, step = ct
    h = bb(d); body = S.loops().get(h)
    if not body or bb(at) not in body: return None
    if step not in (1, -1): return "steps over elements"
    phi = ("phi", d.res)
    first = add(init, ({}, off), 1)
    if step == 1:
        if first[0]: return None
        if first[1] != 0: return "does not start with the first element"
    else:
        cn = [a for a, n in first[0].items() if n == 1 and is_count(a)]
        if len(first[0]) != 1 or not cn: return None
        if first[1] != -1: return "does not start with the last element"
    bound = False
    for b in body:
        t = f.blocks[b].term
        if t is None or t.op != "br" or len(t.extra) != 2: continue
        outs = [s for s in t.extra if s not in body]
        if len(outs) != 1: continue
        for l in S.facts(t.ops[0], t.extra[0] in body):
            ats = set(l[0])
            if phi not in ats or any(not is_count(a) for a in ats - {phi}): continue
            bound = True
            if step == 1:
                if l[0].get(phi) == 1 and len(ats) == 2 and l[1] != 1 + off: return "stops before or after the last element"
                if l[0].get(phi) == 1 and len(ats) == 1: return "stops at a fixed number of elements"
            elif l[0].get(phi) == -1 and len(ats) == 1 and l[1] + off != 0: return "stops before or after the first element"
    # within an iteration the element is always handled
    if any(S.reaches(s, {h}, avoid={bb(at)}) for s in f.blocks[h].succs if s in body and s != bb(at)): return "leaves elements out"
    return "" if bound else None
