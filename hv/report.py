"""Obligation ledger: what a check analysed, what it found, and the exit code."""
import json, os, sys, time
from . import program
from .program import VERIF, AnalysisBroken

KNOWN = os.path.join(VERIF, "known-findings.jsonl")


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l or l.startswith("#"):
                continue
            d = json.loads(l)
            if d.get("status") == "known" and d["property"] == prop:
                out[d["key"]] = d["what"]
    return out


class Ledger:
    def __init__(self, prop, tier, seed, level, rule):
        self.prop, self.tier, self.seed, self.level, self.rule = prop, tier, seed, level, rule
        self.t0 = time.time()
        self.n = 0
        self.ok = 0
        self.viol = []
        self.known = []
        self.kf = known_findings(prop)
        self.funcs = set()
        self.kinds = {}
        self.samples = []
        self.assumptions = []
        self.notes = []
        self.extra = {}

    def ob(self, kind, key, ok, where="", detail=""):
        """one obligation; key identifies the construct (stable across runs)"""
        self.n += 1
        k = self.kinds.setdefault(kind, [0, 0])
        k[0] += 1
        if ok:
            self.ok += 1
            k[1] += 1
            if k[1] <= 2:
                self.samples.append("%s: %s %s" % (kind, key, where))
            return True
        full = "%s|%s" % (kind, key)
        if full in self.kf:
            if full not in [x[0] for x in self.known]:
                self.known.append((full, self.kf[full]))
            return False
        self.viol.append({"kind": kind, "key": key, "where": where, "detail": detail})
        return False

    def need(self, cond, what):
        """anchor: without it the analysis cannot answer"""
        if not cond:
            raise AnalysisBroken(what)

    def finish(self):
        wall = time.time() - self.t0
        cov = {
            "explanation": self.rule,
            "obligations": self.n,
            "discharged": self.ok,
            "obligations_by_kind": {k: {"checked": v[0], "held": v[1]} for k, v in sorted(self.kinds.items())},
            "functions_analysed": len(self.funcs),
            "samples": self.samples[:12],
            "known_findings_reported": [k for k, _ in self.known],
        }
        cov.update(self.extra)
        if self.level == "proof":
            cov["checker_cmd"] = "python3 check.py %s --tier %s" % (self.prop, self.tier)
            cov["trusted_base"] = ["clang 18 front end (resolved AST)", "hv abstract interpreter and its library models"]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 3),
              "violations": len(self.viol)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, w in self.known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, w, k))
        if self.viol:
            rp = os.path.join(VERIF, "build", "replay")
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, self.prop + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "rule": self.rule,
                           "rerun": "cd /verif && python3 check.py %s --tier %s" % (self.prop, self.tier),
                           "violations": self.viol}, f, indent=1)
            for v in self.viol[:25]:
                print("  %s %s at %s: %s" % (v["kind"], v["key"], v["where"], v["detail"]))
            if len(self.viol) > 25:
                print("  ... %d more" % (len(self.viol) - 25))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s: %d obligations, %d held, %d known finding(s), %d functions, %.1f s"
              % (self.prop, self.n, self.ok, len(self.known), len(self.funcs), wall))
        if self.n == 0:
            print("no obligations: analysis broken")
            return 2
        return 0
