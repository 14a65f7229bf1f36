"""Result collection: violations, known findings, evidence; the exit protocol."""
import json, os, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.jsonl")


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.viol = {}          # key -> text
        self.analysed = {}      # counters
        self.samples = []
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.rule = ""
        self.assumptions = []
        self.errors = []

    def count(self, k, n=1):
        self.analysed[k] = self.analysed.get(k, 0) + n

    def ok(self, what=None):
        self.obligations += 1
        self.discharged += 1
        if what and len(self.samples) < 40:
            self.samples.append(what)

    def undec(self, what):
        self.obligations += 1
        self.undecided.append(what)

    def violation(self, key, text):
        self.obligations += 1
        if key not in self.viol:
            self.viol[key] = text

    def floor(self, what, n, least):
        """fail closed: a rule whose instances vanished decides nothing"""
        if n < least:
            self.errors.append("only %d %s (at least %d expected)" % (n, what, least))

    def finish(self):
        known = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("status") == "known" and d["property"] == self.pid:
                        for k in d.get("keys") or [d["key"]]:
                            for v in d.get("versions") or [None]:
                                known[k if v is None else "%s@v%d" % (k, v)] = d
        new = {k: v for k, v in self.viol.items() if k not in known}
        old = {k: v for k, v in self.viol.items() if k in known}
        tier = os.environ.get("VERIF_TIER", "quick")
        ev = {
            "property": self.pid, "tier": tier if tier in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": self.rule,
                "analysed": self.analysed,
                "obligations": self.obligations,
                "discharged": self.discharged,
                "undecided": self.undecided[:200],
                "undecided_count": len(self.undecided),
                "samples": self.samples[:40],
                "known_findings_seen": sorted(old),
                "violations_found": [{"key": k, "what": v} for k, v in sorted(new.items())],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        evp = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(evp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print("%s: obligations %d, discharged %d, undecided %d; %s; %.1fs" % (
            self.pid, self.obligations, self.discharged, len(self.undecided),
            ", ".join("%s=%s" % kv for kv in sorted(self.analysed.items())), time.time() - self.t0))
        for what in sorted({known[k].get("what", k) for k in old}):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        for k, v in sorted(new.items()):
            print("  [%s] %s" % (k, v))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.pid, evp))
            return 1
        if self.errors:
            for e in self.errors:
                print("ERROR: " + e)
            return 2
        return 0
