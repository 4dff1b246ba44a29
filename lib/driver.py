"""What all checks share: seeds, known findings, reports, replay files, evidence."""
import hashlib
import json
import os
import sys
import time

import runner

KNOWN = os.path.join(runner.VERIF, "known-findings.txt")


# how much of the quick workload a check that takes little time can afford
SCALE = {"C02": 4, "C03": 3, "C04": 4, "C05": 3, "C06": 4, "C07": 5, "C08": 3, "C09": 2, "C11": 4, "C12": 5, "C13": 2, "C14": 3, "C18": 5, "C19": 4, "C21": 3}


def known_findings():
    """{(property, key): description} of findings recorded but not repaired."""
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                if line.startswith("known: "):
                    parts = line[7:].strip().split(" ", 2)
                    out[(parts[0].split("=", 1)[1], parts[1].split("=", 1)[1])] = parts[2]
    except FileNotFoundError:
        pass
    return out


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.known = known_findings()
        self.seen_known = set()
        self.violations = []
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.cov = {}
        self.rule = ""
        self.assumptions = []
        self.inconclusive = 0

    def n(self, quick, thorough):
        return thorough if self.tier == "thorough" else min(thorough, quick * SCALE.get(self.prop, 1))

    def log(self, *a):
        print("[%6.1fs] " % (time.time() - self.t0) + " ".join(str(x) for x in a), flush=True)

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, text, replay, key=None):
        """replay: JSON-serialisable description, enough to run the case again."""
        if key is not None and (self.prop, key) in self.known:
            if key not in self.seen_known:
                self.seen_known.add(key)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[(self.prop, key)]), flush=True)
            return
        d = os.path.join(runner.VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        body = json.dumps(dict(property=self.prop, what=text, replay=replay), indent=1)
        p = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
        if len(self.violations) < 8:
            with open(p, "w") as f:
                f.write(body)
            print("  %s" % text, flush=True)
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        self.violations.append(text)

    def finish(self, level="exploration"):
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples or ["(none)"])
        cov.update(self.cov)
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        d = os.path.join(runner.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("%s %s: %d evaluations, %d distinct, %d violation(s)" % (
            self.prop, self.tier, self.evaluations, len(self.distinct), len(self.violations)))
        sys.exit(1 if self.violations else 0)
