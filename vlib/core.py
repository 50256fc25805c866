"""Check registry, reports, evidence, known findings."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}


class Anchor(Exception):
    """something a rule needs is not in the tree any more"""


def check(pid, floors=None, technique="", rule=""):
    def deco(f):
        CHECKS[pid] = dict(fn=f, floors=floors or {}, technique=technique, rule=rule)
        return f
    return deco


class Report:
    """obligations decided by one check"""

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obl = []          # (rule, key, ok, where, why)
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.notes = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ob(self, rule, key, ok, where="", why=""):
        """one decided instance; key never contains a line number"""
        self.obl.append((rule, key, bool(ok), where, why))
        return ok

    def bad(self, rule, key, where="", why=""):
        self.ob(rule, key, False, where, why)

    def violations(self):
        out, seen = [], set()
        for o in self.obl:
            if not o[2] and (o[0], o[1]) not in seen:
                seen.add((o[0], o[1]))
                out.append(o)
        return out


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                # finding: property=<id> key=<rule>|<key> :: text
                head, _, text = line[len("finding: "):].partition(" :: ")
                a, _, b = head.partition(" key=")
                if a == "property=" + pid:
                    out[b] = text
    return out


def run(pid, tier):
    from vlib import facts as F
    import vlib.checks  # noqa: registers everything
    if pid not in CHECKS:
        print("no check for", pid)
        return 2
    t0 = time.time()
    c = CHECKS[pid]
    try:
        facts = F.extract()
    except F.FactsError as e:
        print("ERROR: cannot analyse the tree:", e)
        return 2
    r = Report(pid, tier)
    try:
        c["fn"](facts, r)
    except Anchor as e:
        r.bad("anchor", str(e), "", "the construct this property is anchored in cannot be found; failing closed")
    for name, n in c["floors"].items():
        have = r.counts.get(name, 0)
        if have < n:
            r.bad("floor", name, "", "analysed only %d of at least %d %s" % (have, n, name))
    known = known_findings(pid)
    viol, kf = [], []
    for o in r.violations():
        k = "%s|%s" % (o[0], o[1])
        (kf if k in known else viol).append(o)
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    rep = os.path.join(evd, pid + ".report.txt")
    with open(rep, "w") as f:
        f.write("property %s: %d obligations, %d violated, %d known findings\nrule: %s\n\n" % (
            pid, len(r.obl), len(viol), len(kf), c["rule"]))
        for o in viol:
            f.write("VIOLATED [%s] %s\n   at %s\n   %s\n\n" % (o[0], o[1], o[3], o[4]))
        for o in kf:
            f.write("KNOWN [%s] %s\n   at %s\n   %s\n\n" % (o[0], o[1], o[3], o[4]))
        for n in r.notes:
            f.write("note: %s\n" % n)
        f.write("\nobligations:\n")
        for o in r.obl:
            f.write("%s [%s] %s  (%s)\n" % ("ok " if o[2] else "BAD", o[0], o[1], o[3]))
    n_ok = sum(1 for o in r.obl if o[2])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
              coverage=dict(
                  explanation="static analysis of the resolved program (MIR of the current tree): " + c["rule"],
                  obligations=len(r.obl), discharged=n_ok,
                  analysed=r.counts,
                  rules=sorted(set(o[0] for o in r.obl)),
                  samples=(r.samples or ["[%s] %s (%s)" % (o[0], o[1], o[3]) for o in r.obl[:12]])),
              assumptions=r.assumptions, wall_s=round(time.time() - t0, 3), violations=len(viol))
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for o in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, known["%s|%s" % (o[0], o[1])]))
    print("%s: %d obligations, %d discharged, analysed %s, %.1fs" % (pid, len(r.obl), n_ok, json.dumps(r.counts), time.time() - t0))
    if viol:
        for o in viol[:20]:
            print("  violated [%s] %s\n     at %s: %s" % (o[0], o[1], o[3], o[4]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    rc = 0
    for pid in argv:
        try:
            x = run(pid, tier)
        except Exception:
            traceback.print_exc()
            x = 2
        rc = max(rc, x) if x != 1 else (1 if rc == 0 else rc)
    return rc
