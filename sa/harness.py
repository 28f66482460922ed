"""Shared plumbing of the checks: known findings, evidence, the VIOLATION line."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")


class Broken(Exception):
    """The analysis itself cannot answer (an anchor vanished, a TU does not compile)."""


class Result:
    def __init__(self):
        self.violations = []      # dicts: rule, where, function, msg, detail(list of lines)
        self.undecided = []       # strings
        self.obligations = 0
        self.discharged = 0
        self.coverage = {}
        self.assumptions = []
        self.trusted = []
        self.samples = []
        self.level = "proof"

    def viol(self, rule, where, function, msg, detail=()):
        v = dict(rule=rule, where=where, function=function, msg=msg, detail=list(detail))
        if not any(x["rule"] == v["rule"] and x["where"] == v["where"] and x["msg"] == v["msg"] for x in self.violations):
            self.violations.append(v)

    def undec(self, s):
        if s not in self.undecided:
            self.undecided.append(s)


def known(pid):
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid and k.get("status") == "known"]


def matches(k, v):
    """A finding names rule, file, function and (a part of) the message: not a line number."""
    m = k["match"]
    return (m["rule"] == v["rule"] and v["where"].split(":")[0] == m["file"]
            and m.get("function", "") in v["function"] and m.get("msg", "") in v["msg"])


def finish(pid, res, t0, tier):
    kf = known(pid)
    new, old = [], []
    for v in res.violations:
        k = next((k for k in kf if matches(k, v)), None)
        (old if k else new).append((k, v))
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    cov = {"obligations": res.obligations, "discharged": res.discharged,
           "checker_cmd": "python3 check.py %s" % pid,
           "trusted_base": res.trusted or ["clang 18 front end and sroa/early-cse/simplifycfg passes", "/verif/sa"],
           "samples": res.samples[:12], "undecided": res.undecided[:40]}
    cov.update(res.coverage)
    cov["explanation"] = cov.get("explanation", "static analysis of /repo's current source; nothing is executed")
    doc = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": res.level,
           "coverage": cov, "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1, default=str)
    for k in kf:
        hit = [v for kk, v in old if kk is k]
        if hit:
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, k["what"], hit[0]["where"]))
    if new:
        rp = os.path.join(ev, pid + ".replay.txt")
        with open(rp, "w") as f:
            for _, v in new:
                f.write("[%s] %s in %s\n  %s\n" % (v["rule"], v["where"], v["function"], v["msg"]))
                for d in v["detail"]:
                    f.write("    %s\n" % d)
        for _, v in new[:8]:
            print("  [%s] %s (%s): %s" % (v["rule"], v["where"], v["function"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d discharged=%d undecided=%d violations=0 %.1fs" % (
        pid, res.obligations, res.discharged, len(res.undecided), time.time() - t0))
    for u in res.undecided[:5]:
        print("  undecided:", u)
    return 0
