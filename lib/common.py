"""Command line, evidence, verdict lines and known findings shared by all checks."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVID, "replays")


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assume = []
        self.viol = []
        self.known = []
        self.notes = []
        os.makedirs(REPLAYS, exist_ok=True)

    thorough = property(lambda self: self.tier == "thorough")

    def elapsed(self):
        return time.time() - self.t0

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def violation(self, what, data):
        """data: whatever is needed to see it again"""
        p = os.path.join(REPLAYS, "%s-%d.json" % (self.prop, len(self.viol) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, **data}, f, indent=1)
        self.viol.append((what, p))
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        print("  " + what.replace("\n", "\n  "), flush=True)

    def listed(self, ident):
        """-> the text of the known finding of this property with that id, or None"""
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            head = "finding: property=%s id=%s " % (self.prop, ident)
            if line.startswith(head):
                return line[len(head):].strip()
        return None

    def finding(self, what):
        self.known.append(what)
        print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)

    def finish(self, level):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": self.assume, "wall_s": round(self.elapsed(), 1), "violations": len(self.viol)}
        if self.known:
            ev["coverage"]["known_findings_seen"] = self.known
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %s in %.0f s; %s" % (self.prop, self.tier, "VIOLATED" if self.viol else "held on everything explored", self.elapsed(),
              ", ".join("%s=%s" % (k, v) for k, v in self.cov.items() if isinstance(v, (int, float)))), flush=True)
        return 1 if self.viol else 0
