"""One run of one check: what it covered, what it found, and how it ends."""
import json
import os
import shutil
import sys
import time

from core import VERIF, WORK, ensure

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    """lines `finding: property=<id> key=<key> <what fails>` -> {key: what}"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding="utf-8"):
            w = l.split(None, 3)
            if len(w) >= 4 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
                out[w[2][4:]] = w[3].strip()
    return out


class Run:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.detail = {}
        self.samples = []
        self.assumptions = []
        self.bad = []
        self.known = known_findings(prop)
        self.hit = set()
        self.work = os.path.join(WORK, "run-%s-%s" % (prop, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        ensure(self.work)
        self.replays = ensure(os.path.join(WORK, "replay"))

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def model(self, r, name):
        """a model checked by TLC"""
        self.states += r.distinct
        self.transitions += r.generated
        d = {"states": r.distinct, "transitions": r.generated, "wall_s": round(r.wall, 1)}
        if r.actions:
            d["actions"] = r.actions
            d["never_taken"] = sorted(k for k, v in r.actions.items() if v == 0)
        self.detail[name] = d
        self.log("model", name, "%d states" % r.distinct, "%.1fs" % r.wall,
                 ("never taken: %s" % ", ".join(d["never_taken"])) if r.actions and d["never_taken"] else "")

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def violation(self, what, case, key=None):
        """what broke, and all that is needed to see it again"""
        if key is not None and key in self.known:
            self.hit.add(key)
            return
        p = os.path.join(self.replays, "%s-%d.json" % (self.prop, len(self.bad) + 1))
        if len(self.bad) < 20:
            with open(p, "w", encoding="utf-8") as f:
                json.dump({"property": self.prop, "what": what, "case": case}, f, indent=1)
        self.bad.append((what, p))
        if len(self.bad) <= 3:
            print("   broken:", what[:600], flush=True)

    def finish(self):
        for k in sorted(self.known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[k]))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces, "samples": self.samples}, **self.detail),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad)}
        with open(os.path.join(ensure(os.path.join(VERIF, "evidence")), self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.bad:
            for what, p in self.bad[:5]:
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("%d violations" % len(self.bad))
            return 1
        self.log("held: %d states, %d transitions, %d traces" % (self.states, self.transitions, self.traces))
        return 0
