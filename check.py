#!/usr/bin/env python3
"""usage: check.py <property-id> | --setup | --all
Decides one property of /repo's current source by static analysis (see DESIGN.md)."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


class Env:
    """lazily extracted programs, shared by the checks of one run"""

    def __init__(self):
        self._p = {}

    def prog(self, debug=False):
        from vf.core import Program
        if debug not in self._p:
            self._p[debug] = Program(debug=debug)
        return self._p[debug]


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viol = {}
        self.stats = {}
        self.samples = []
        self.rule = ""
        self.assumptions = []
        self.obligations = 0
        self.units = set()

    def violation(self, key, msg, where="", trace=None):
        """key: stable identity (rule|function|construct), no line numbers"""
        if key not in self.viol:
            self.viol[key] = {"key": key, "message": msg, "where": where, "trace": trace or []}

    def ok(self, unit, sample=None):
        """one discharged obligation, identified by unit"""
        self.obligations += 1
        self.units.add(unit)
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def need(self, name, least):
        """guard against a vacuous run: the analysis must have seen at least `least` of these"""
        from vf.core import AnalysisError
        if self.stats.get(name, 0) < least:
            raise AnalysisError("%s: only %d %s found (expected at least %d): the analysis no longer sees the code"
                                % (self.pid, self.stats.get(name, 0), name, least))


def run_one(pid, env, quiet=False):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = Report(pid)
    mod = importlib.import_module("vf.checks." + pid.lower())
    mod.run(env, rep)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    kn = {k["key"]: k for k in known["known"] if k["property"] == pid}
    new = [v for k, v in sorted(rep.viol.items()) if k not in kn]
    seen = [v for k, v in sorted(rep.viol.items()) if k in kn]
    for v in seen:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kn[v["key"]]["what"], v["key"]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for v in new:
        rp = os.path.join("evidence", "%s-%s.txt" % (pid, hashlib.sha1(v["key"].encode()).hexdigest()[:10]))
        with open(os.path.join(HERE, rp), "w") as f:
            f.write("property %s\nconstruct: %s\nat: %s\n%s\n" % (pid, v["key"], v["where"], v["message"]))
            for t in v["trace"]:
                f.write("  " + t + "\n")
            f.write("re-run: cd /verif && python3 check.py %s\n" % pid)
        print("%s: %s" % (v["where"], v["message"]))
        for t in v["trace"][:14]:
            print("    " + t)
        print("  construct: " + v["key"])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    cov = {
        "explanation": rep.rule,
        "rule": rep.rule,
        "obligations": rep.obligations + len(rep.viol),
        "discharged": rep.obligations,
        "distinct_units": len(rep.units),
        "analysed": rep.stats,
        "samples": rep.samples or ["(none)"],
        "known_findings": [v["key"] for v in seen],
    }
    p = env._p.get(False) or env._p.get(True)
    if p is not None:
        cov["functions_in_model"] = len(p.fns)
        cov["translation_units"] = len(p.tus)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": rep.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations over %d units, %d discharged, %d known finding(s), %d violation(s), %.1fs" % (
        pid, rep.obligations + len(rep.viol), len(rep.units), rep.obligations, len(seen), len(new), time.time() - t0))
    return 1 if new else 0


def main():
    arg = sys.argv[1] if len(sys.argv) > 1 else "--help"
    try:
        if arg == "--setup":
            from vf import facts
            facts.build_extractor()
            print("extractor ready")
            return 0
        env = Env()
        ids = sys.argv[1:]
        if arg == "--all":
            ids = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
        rc = 0
        for i in ids:
            rc = max(rc, run_one(i, env))
        return rc
    except Exception as e:
        traceback.print_exc()
        print("ANALYSIS ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
