"""Obligation bookkeeping, known findings, evidence and verdicts."""
import json, os, time, sys, collections
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Reporter:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = collections.Counter(); self.sample = collections.defaultdict(list)
        self.viol = []; self.keys = set()
        self.rules = {}; self.floors = {}
        self.notes = []; self.assume = []
        self.analysed = set()

    def rule(self, rid, text, floor=1):
        """Declare a rule; `floor` = instances below which the anchor is considered vanished."""
        self.rules[rid] = text; self.floors[rid] = floor

    def ok(self, rid, where, what):
        self.obl[rid] += 1
        if len(self.sample[rid]) < 6: self.sample[rid].append("%s  %s" % (where, what))

    def bad(self, rid, where, fn, what, key=None):
        """A violated obligation.  key identifies the construct independent of line numbers."""
        self.obl[rid] += 1
        key = key or "%s|%s|%s" % (rid, fn, what)
        if key in self.keys: return
        self.keys.add(key)
        self.viol.append(dict(rule=rid, where=where, function=fn, what=what, key=key))

    def check(self, rid, cond, where, fn, what, bad=None, key=None):
        if cond: self.ok(rid, where, "%s: %s" % (fn, what))
        else: self.bad(rid, where, fn, bad or what, key)
        return cond

    def analyse(self, *fns):
        for f in fns: self.analysed.add(f if isinstance(f, str) else f.qname)

    def assumption(self, s): self.assume.append(s)

    def finish(self, P):
        from irbuild import AnalysisBroken
        known = load_known(self.pid)
        new, old = [], []
        for v in self.viol:
            k = [x for x in known if x["key"] == v["key"]]
            (old if k else new).append((v, k[0] if k else None))
        vanished = [r for r in self.rules if self.obl[r] < self.floors[r]]
        ev = os.environ.get("FERRET_SA_EVIDENCE") or os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
        total = sum(self.obl.values())
        cov = dict(
            explanation="Static analysis of the LLVM IR that clang produces from the current sources. "
                        "Each rule below was applied to every instance found; an instance is an obligation "
                        "(a call site, path, function, field or writer/reader pair).",
            obligations=total, discharged=total - len(self.viol),
            translation_units=len(P.mods), functions_in_program=len(P.funcs),
            functions_analysed=len(self.analysed),
            call_sites=sum(len(c) for c in P.calls.values()),
            rules=[dict(id=r, rule=self.rules[r], instances=self.obl[r], samples=self.sample[r]) for r in self.rules],
            known_findings=[v["key"] for v, _ in old])
        json.dump(dict(property=self.pid, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                       level="other", coverage=cov, assumptions=self.assume,
                       wall_s=round(time.time() - self.t0, 3), violations=len(new)),
                  open(os.path.join(ev, self.pid + ".json"), "w"), indent=1)
        print("property %s: %d translation units, %d functions, %d obligations over %d rules" % (
            self.pid, len(P.mods), len(P.funcs), total, len(self.rules)))
        for r in self.rules:
            print("  %-6s %5d instance(s)  %s" % (r, self.obl[r], self.rules[r]))
        for v, k in old:
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, k.get("what", v["what"]), v["where"]))
        if vanished and not new:
            raise AnalysisBroken("rule(s) %s matched fewer instances than the code they are anchored in has ever had: %s" % (
                ", ".join(vanished), "; ".join("%s=%d<%d" % (r, self.obl[r], self.floors[r]) for r in vanished)))
        if new:
            rp = os.path.join(ev, self.pid + ".violations.txt")
            with open(rp, "w") as f:
                for v, _ in new:
                    line = "%s: [%s] in %s(): %s\n    rule: %s\n    key: %s\n" % (
                        v["where"], v["rule"], v["function"], v["what"], self.rules.get(v["rule"], ""), v["key"])
                    f.write(line); sys.stdout.write(line)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0

def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [x for x in json.load(open(p)).get("findings", []) if x["property"] == pid]
