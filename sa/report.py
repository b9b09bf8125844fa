"""Common driver: evidence, known findings, VIOLATION lines."""
import json, os, sys, time, traceback
from .front import VERIF, Broken, load

KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.v = {}          # key -> dict
        self.counts = {}
        self.samples = []
        self.notes = []
        self.rule = ""
        self.assumptions = []

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, key, where, msg, func=""):
        self.v.setdefault(key, dict(key=key, where=where, function=func, message=msg))

    def note(self, s):
        if len(self.notes) < 60:
            self.notes.append(s)


def known(pid):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {k["key"]: k for k in d.get("findings", []) if k["property"] == pid}


def main(pid, run, minimum=None):
    """run(P, R): fills the report. minimum: {count name: least value} below which the check is broken."""
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    R = Report(pid)
    try:
        P = load()
        R.count("translation_units", len(P.units))
        R.count("functions_parsed", len(P.funcs))
        run(P, R)
        for k, n in (minimum or {}).items():
            if R.counts.get(k, 0) < n and not R.v:
                raise Broken("%s: only %d %s found, expected at least %d" % (pid, R.counts.get(k, 0), k, n))
    except Broken as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        print("ERROR property=%s analysis failed: %s" % (pid, traceback.format_exc().strip()[-1500:]))
        return 2
    kn = known(pid)
    new = [v for k, v in sorted(R.v.items()) if k not in kn]
    old = [v for k, v in sorted(R.v.items()) if k in kn]
    ev = dict(property=pid, tier=tier, seed=seed, level="other", wall_s=round(time.time() - t0, 2),
              violations=len(new), assumptions=R.assumptions,
              coverage=dict(explanation=R.rule, samples=R.samples, notes=R.notes,
                            known_findings=[v["key"] for v in old], **R.counts))
    if os.environ.get("SA_NOEV"):
        if R.counts.get("analyses_broken_down"):
            print("  BROKEN-DOWN %d %s" % (R.counts["analyses_broken_down"], [n for n in R.notes if " at " in n][:2]))
        for v in new:
            print("  %s: %s [%s] key=%s" % (v["where"], v["message"], v["function"], v["key"]))
        return 1 if new else 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s" % (pid, ", ".join("%s=%d" % kv for kv in sorted(R.counts.items()))))
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[v["key"]]["what"]))
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for v in new:
            print("  %s: %s [%s] key=%s" % (v["where"], v["message"], v["function"], v["key"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
