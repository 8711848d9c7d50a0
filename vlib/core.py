"""What every check has in common: budget, violations, known findings, evidence."""
import json, os, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Check:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.thorough = tier == "thorough"
        self.coverage = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.found_known = []
        self.work = os.path.join(VERIF, "build", "work", "%s_%s_%d" % (prop, tier, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        if os.path.exists(FINDINGS):
            for l in open(FINDINGS):
                l = l.strip()
                if l.startswith("known: property=%s " % prop):
                    key, _, text = l[len("known: property=%s " % prop):].partition(" ")
                    self.known.append((key, text))

    def elapsed(self):
        return time.time() - self.t0

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, self.elapsed()), *a, flush=True)

    def add(self, key, n):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def sample(self, s, limit=4):
        if len(self.coverage["samples"]) < limit:
            self.coverage["samples"].append(s)

    def tlc(self, r):
        """count what TLC explored"""
        self.add("states", r.distinct)
        self.add("transitions", r.generated)

    def violation(self, what, replay, key=None):
        """`replay` (JSON-able) is what someone needs to see the violation again."""
        for k, text in self.known:
            if key is not None and k == key:
                if k not in self.found_known:
                    self.found_known.append(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, text), flush=True)
                return
        if len(self.violations) >= 5:
            self.violations.append(None)
            return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, "replay": replay}, f, indent=1, default=str)
        self.violations.append(what)
        print("  " + what.replace("\n", "\n  "), flush=True)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def finish(self):
        import shutil
        # every listed finding is reported, whether or not this run met it again
        for k, text in self.known:
            if k not in self.found_known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, text), flush=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.coverage, "assumptions": self.assumptions,
              "wall_s": round(self.elapsed(), 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        self.log("%d violation(s); %s" % (len(self.violations), {k: v for k, v in self.coverage.items() if isinstance(v, int)}))
        return 1 if self.violations else 0
