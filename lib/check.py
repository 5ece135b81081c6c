"""Common parts of all checks: tiers, seeds, violations, known findings,
evidence.  Every check is a function run(c) of a module lib/c_*.py."""
import hashlib
import json
import os
import random
import re
import sys
import time

import build as B

KNOWN = os.path.join(B.VERIF, "known_findings.txt")


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if "--quick" in sys.argv:
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.level = level
        self.t0 = time.time()
        self.viol = []
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=0)
        self.notes = {}
        self.assume = []
        self.rdir = os.path.join(B.BUILD, "replay")
        self.findings = self.load_known()
        self.budget = float(os.environ.get("VERIF_BUDGET", "60" if self.tier == "quick" else "600"))

    @property
    def quick(self):
        return self.tier == "quick"

    def rng(self, salt=""):
        return random.Random("%s/%s/%d" % (self.prop, salt, self.seed))

    def left(self):
        return self.budget - (time.time() - self.t0)

    def load_known(self):
        out = []
        try:
            for ln in open(KNOWN):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln)
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3).strip()))
        except OSError:
            pass
        return out

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def violation(self, what, replay, key=None):
        """what: one line. replay: anything JSON can hold. key: identifies a known finding."""
        if key:
            for k, d in self.findings:
                if k == key:
                    if (k, d) not in self.known:
                        self.known.append((k, d))
                    return
        os.makedirs(self.rdir, exist_ok=True)
        h = hashlib.sha256(json.dumps(replay, sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(self.rdir, "%s-%s.json" % (self.prop, h))
        with open(p, "w") as f:
            json.dump(dict(property=self.prop, what=what, **(replay if isinstance(replay, dict) else dict(data=replay))), f, indent=1, default=str)
        self.viol.append((what, p))
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        print("  " + what[:600], flush=True)

    def log(self, *a):
        print("[%6.1f]" % (time.time() - self.t0), *a, flush=True)

    def finish(self):
        for k, d in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, d), flush=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(self.cov, **self.notes), assumptions=self.assume,
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.viol))
        d = os.path.join(B.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("done: %d violation(s), coverage %s" % (len(self.viol), json.dumps({k: v for k, v in self.cov.items() if k != "samples"})))
        return 1 if self.viol else 0
