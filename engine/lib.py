"""Obligations, findings, evidence."""
import json
import os
import re
import sys
import time

from front import VERIF, REPO, Broken, extract, PROBE   # noqa: F401


def rel(p):
    return os.path.relpath(p, REPO) if p.startswith(REPO) else p


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = {}           # rule -> [total, discharged, undecided]
        self.findings = []      # (key, where, msg)
        self.undec = []
        self.samples = {}
        self.analysed = set()
        self.rules = {}
        self.extra = {}

    def rule(self, name, text):
        self.rules[name] = text
        self.obl.setdefault(name, [0, 0, 0])

    def _o(self, rule):
        return self.obl.setdefault(rule, [0, 0, 0])

    def ok(self, rule, subject):
        o = self._o(rule)
        o[0] += 1
        o[1] += 1
        s = self.samples.setdefault(rule, [])
        if len(s) < 4 and subject not in s:
            s.append(subject)

    def bad(self, rule, key, where, msg):
        self._o(rule)[0] += 1
        self.findings.append((rule, key, where, msg))

    def undecided(self, rule, subject, why):
        o = self._o(rule)
        o[0] += 1
        o[2] += 1
        if len(self.undec) < 200:
            self.undec.append("%s: %s: %s" % (rule, subject, why))

    def check(self, cond, rule, key, where, msg, subject=None):
        if cond:
            self.ok(rule, subject or key)
        else:
            self.bad(rule, key, where, msg)
        return cond

    def uses(self, it):
        for q, f, l in it.used:
            self.analysed.add("%s (%s:%d)" % (q, rel(f), l))

    def total(self):
        return sum(o[0] for o in self.obl.values())


def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def finish(rep, explanation, assumptions=(), minimum=1):
    """Print findings, write evidence, return the exit code."""
    pid = rep.pid
    if rep.total() < minimum and not rep.undec:
        raise Broken("%s: only %d obligations found, at least %d expected" % (pid, rep.total(), minimum))
    kn = {k: t for p, k, t in known() if p == pid}
    new, seen = [], set()
    kcount = {}
    for rule, key, where, msg in rep.findings:
        if key in kn:
            kcount[key] = kcount.get(key, 0) + 1
            if key not in seen:
                seen.add(key)
                print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kn[key], key))
            continue
        new.append((rule, key, where, msg))
    cov = {
        "explanation": explanation,
        "obligations": rep.total(),
        "discharged": sum(o[1] for o in rep.obl.values()),
        "undecided": sum(o[2] for o in rep.obl.values()),
        "rules": {r: {"text": rep.rules.get(r, ""), "obligations": o[0], "discharged": o[1], "undecided": o[2]} for r, o in sorted(rep.obl.items())},
        "samples": rep.samples,
        "functions_analysed": sorted(rep.analysed),
        "known_findings": kcount,
        "undecided_detail": rep.undec[:60],
    }
    cov.update(rep.extra)
    ev = {"property": pid, "tier": rep.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - rep.t0, 3), "violations": len(new)}
    d = os.environ.get("VERIF_OUT") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    rp = os.path.join(d, pid + ".violations.txt")
    if new:
        with open(rp, "w") as f:
            for rule, key, where, msg in new:
                f.write("rule  %s: %s\nkey   %s\nwhere %s\nwhat  %s\n\n" % (rule, rep.rules.get(rule, ""), key, where, msg))
        for rule, key, where, msg in new[:25]:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  %s at %s: %s [%s]" % (rule, where, msg, key))
        if len(new) > 25:
            print("  ... and %d more" % (len(new) - 25))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    for u in rep.undec[:10]:
        print("%s: undecided: %s" % (pid, u))
    print("%s: %d obligations, %d discharged, %d undecided, %d known findings, %.1f s" % (
        pid, rep.total(), cov["discharged"], cov["undecided"], len(kcount), time.time() - rep.t0))
    return 0
