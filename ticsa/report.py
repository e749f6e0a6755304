"""Obligations, violations, known findings and the evidence file of one check."""
import json, os, sys, time

from . import build

VERIF = build.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.txt")


def known_findings(pid):
    """exact keys listed for the property: lines `finding: property=<id> key=<key> | <text>`"""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" key=", 1)[1]
                key, _, text = rest.partition(" | ")
                out[key.strip()] = text.strip()
    return out


class Report:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.violations = []      # (key, text)
        self.samples = []
        self.analysed = {}
        self.notes = []
        self.build_s = 0.0
        self.trace = []

    def ob(self, ok, key, text="", where=""):
        """one obligation. key: stable (no line numbers)"""
        self.obligations += 1
        self.trace.append((bool(ok), key, where))
        if ok:
            self.discharged += 1
            if len(self.samples) < 12 and (self.obligations % 7 == 1):
                self.samples.append("%s @ %s" % (key, where) if where else key)
        else:
            self.violations.append((key, text, where))
        return ok

    def count(self, name, n):
        self.analysed[name] = n

    def floor(self, name, n, least):
        """fail closed: a rule that matches (almost) nothing decides nothing"""
        self.analysed[name] = n
        if n < least:
            self.violations.append(("floor:" + name, "only %d %s found, at least %d were confirmed by hand; the rule "
                                    "would hold vacuously" % (n, name, least), ""))

    def finish(self, assumptions=()):
        known = known_findings(self.pid)
        fresh, old = [], []
        seen = set()
        for v in self.violations:
            if v[0] in seen:
                continue
            seen.add(v[0])
            (old if v[0] in known else fresh).append(v)
        ev = {
            "property": self.pid,
            "tier": os.environ.get("VERIF_TIER", "quick"),
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the MIR of /repo's working tree (all workspace crates, callees "
                               "resolved by rustc). Rule: " + self.rule,
                "obligations": self.obligations,
                "discharged": self.discharged,
                "analysed": self.analysed,
                "samples": self.samples[:12],
                "notes": self.notes,
                "known_findings": [k for k, _, _ in old],
                "exhaustive": True,
            },
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0 + self.build_s, 3),
            "violations": len(fresh),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, text, where in old:
            print("KNOWN-FINDING: property=%s %s %s" % (self.pid, k, known[k]))
        print("%s: %d obligations, %d discharged, %d known, %d violations; analysed %s" % (
            self.pid, self.obligations, self.discharged, len(old), len(fresh), self.analysed))
        if fresh:
            rp = os.path.join(d, self.pid + ".violations.txt")
            with open(rp, "w") as f:
                for k, text, where in fresh:
                    f.write("property: %s\nrule: %s\nconstruct: %s\nwhere: %s\nwhy: %s\n\n" % (
                        self.pid, self.rule, k, where, text))
            for k, text, where in fresh[:40]:
                print("  violated: %s [%s] %s" % (k, where, text))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0
