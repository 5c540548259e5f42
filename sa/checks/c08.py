"""C08: a change that fails half way does not spoil what is committed next."""
from automaton import Engine
from irbuild import AnalysisBroken
from segs import SegEv, START, GENS

def run(P, R):
    R.rule("R1", "no file of a segment is created once the segment is in the list of segments (a failure would leave it there, incomplete)", floor=2)
    R.rule("R2", "a failing operation leaves the deletions generation of a segment at one whose file has been written", floor=1)
    R.rule("R3", "a failing operation has queued for removal only files that the next commit does not refer to", floor=3)
    R.rule("R4", "the mark that deletions or norms remain to be written is cleared only after they have been written", floor=2)
    R.rule("R5", "the buffered documents are discarded only when all files of their segment have been created", floor=1)
    R.rule("R6", "segments are taken out of the list only when nothing can fail any more before the segment that replaces them is in it", floor=1)
    ev = SegEv(P); eng = ev.eng = Engine(P, ev)
    slots = set(P.slots.get("FrtIndexReader.commit_i", ()))
    if not slots: raise AnalysisBroken("no reader commit routines found")
    roots = [P.funcs[q] for q in sorted(eng.rel) if q in slots or (not P.funcs[q].internal and P.funcs[q].mod in P.core_mods)]
    bad = {}
    for f in roots:
        if any(f.short == n for n in ("frt_open_cw", "frt_cw_close", "frt_cw_add_file", "frt_sis_write", "frt_sis_read")): continue
        n, e = eng.run(f, START)
        R.analyse(f)
        for st in e:
            for p in st.probs:
                if p[0] == "cleared" and f.qname not in slots: continue        # (opening a reader initialises its marks)
                k = {"listed": "R1", "cleared": "R4", "emptied": "R5"}[p[0]]
                what = {"listed": "creates a file of a segment that is already in the list of segments; if that fails the next commit refers to an incomplete segment",
                        "cleared": "creates the file after the mark %s was cleared; if that fails the change is never written" % p[1],
                        "emptied": "creates a file of the segment after its buffered documents were discarded; if that fails they are lost"}[p[0]]
                bad.setdefault((k, p[3], p[2], what), f.qname)
            if ("FrtIndexReader.has_changes", "cur") in st.cleared and f.short == "frt_ir_commit":
                bad.setdefault(("R4", f.qname, None, "can fail after the mark that there are changes to commit was cleared"), f.qname)
            g = dict(st.gens)
            if "removed" in st.written:
                bad.setdefault(("R6", f.qname, None, "can fail after segments were taken out of the list and before the segment that replaces them is in it"), f.qname)
            if g.get(GENS[0]) == "new" and (GENS[0], "new") not in st.written:
                bad.setdefault(("R2", f.qname, None, "can fail after the deletions generation was advanced and before the deletions file of that generation "
                                "was written"), f.qname)
            for q in st.queued:
                if q[0] == "g" and q[1] == GENS[0] and q[2] == "old" and GENS[0] not in g:
                    bad.setdefault(("R3", f.qname, None, "can fail with the current deletions file queued for removal although the segment still refers to it"), f.qname)
                if q[0] == "s" and q[1] == "F:FrtSegmentInfos.segs":
                    bad.setdefault(("R3", f.qname, None, "can fail with the files of a segment queued for removal that is still in the list of segments"), f.qname)
                elif q[0] == "s" and not q[2]:
                    bad.setdefault(("R3", f.qname, None, "can fail with the single files of a segment queued for removal before its compound file is complete"), f.qname)
    R.analyse(*sorted(eng.visited))
    for (k, q, line, what), root in sorted(bad.items(), key=repr):
        f = P.funcs[q]
        R.bad(k, "%s:%s" % (f.file, line or f.line), q, "%s (reached from %s)" % (what, root), key="%s|%s|%s" % (k, q, what[:40]))
    bl = {(q, l) for k, q, l, w in bad}
    for (q, line), toks in sorted(ev.lists.items()): R.ok("R1", "%s:%s" % (P.funcs[q].file, line), "%s lists %s" % (q, ", ".join(sorted(map(str, toks)))))
    for (q, line), rs in sorted(ev.writes.items()):
        if any(x[1] == GENS[0] for g, s in rs for x in g): R.ok("R2", "%s:%s" % (P.funcs[q].file, line), q)
        if any("F:FrtDocWriter.si" in s for g, s in rs): R.ok("R5", "%s:%s" % (P.funcs[q].file, line), q)
    for (q, line), rs in sorted(ev.queues.items()):
        for w in sorted({str(sorted(s)) + str(sorted(g)) for g, s in rs}): R.ok("R3", "%s:%s" % (P.funcs[q].file, line), "%s queues %s" % (q, w))
    for q in sorted(eng.visited):
        if any(ev.store_size(P.funcs[q], i) for i in P.funcs[q].insts()): R.ok("R6", "%s:%s" % (P.funcs[q].file, P.funcs[q].line), q)
    for (q, line), fa in sorted(ev.marks.items()): R.ok("R4", "%s:%s" % (P.funcs[q].file, line), "%s clears or sets %s" % (q, fa))
    R.assumption("What fails is the creation of a file; a file name is attributed to the segment whose name it is formatted from.")
    R.assumption("Writing the commit file itself is covered by C01; files of the compound format are written by the compound writer.")
