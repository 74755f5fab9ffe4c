#!/usr/bin/env python3-vt
"""Decides one property:  check.py <ID> [--tier quick|thorough]

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: error.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from psx import explore as ex, loader          # noqa: E402
import registry                                 # noqa: E402

KNOWN = os.path.join(HERE, "known-findings.txt")


class Known:
    """finding: property=C01 harness=<name> label=<label> -- <what>"""

    def __init__(self, line):
        m = re.match(r"finding: property=(\S+) harness=(\S+) "
                     r"label=\"([^\"]*)\" -- (.*)", line)
        if not m:
            raise SystemExit("bad line in known-findings: " + line)
        self.prop, self.harness, self.label, self.what = m.groups()
        self.hit = 0

    def matches(self, harness, label):
        return harness == self.harness and label == self.label


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding:"):
                k = Known(line.strip())
                if k.prop == prop:
                    out.append(k)
    return out


def replay(path):
    rec = json.load(open(path))
    h = ex.Harness(rec["harness"], rec["name"], rec["params"],
                   path_timeout=rec.get("path_timeout", 60))
    status, label, detail, obs = ex.run_native(h, rec["assignment"])
    print("replay of %s on the real code: %s" % (rec["name"], status))
    if status == "violation":
        print("  violated: %s" % label)
        for t, v in obs[-12:]:
            print("  observed %s = %s" % (t, json.dumps(v)[:300]))
        if detail:
            print("  " + str(detail).strip()[-3000:].replace("\n", "\n  "))
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=int, default=0)
    ap.add_argument("--strict", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = registry.CHECKS[prop]
    hs = spec.harnesses(a.tier)
    if a.only:
        hs = [h for h in hs if re.search(a.only, h.name)]
    names = [h.name for h in hs]
    assert len(set(names)) == len(names), "duplicate harness names"
    budget = a.budget or (400 if a.tier == "quick" else 780)
    known = load_known(prop)
    rep_dir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rep_dir, exist_ok=True)
    for f in os.listdir(rep_dir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rep_dir, f))
    res = ex.explore(hs, budget, jobs=a.jobs or None, seed=seed, known=known)
    st = res.stats

    errors = list(res.errors)
    violations, findings = [], []
    for i, c in enumerate(res.candidates):
        path = os.path.join("evidence", "replays", "%s-%d.json" % (prop, i))
        json.dump(c, open(os.path.join(HERE, path), "w"), indent=1,
                  default=str)
        k = [k for k in known if k.matches(c["name"], c["native_label"])]
        if k:
            k[0].hit += 1
            findings.append(c)
            continue
        if len(violations) >= 3:
            continue
        p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"),
                            prop, "--replay", os.path.join(HERE, path)],
                           capture_output=True, text=True, timeout=300)
        if p.returncode == 1:
            violations.append((c, path, p.stdout))
        else:
            errors.append("counterexample does not reproduce in a clean "
                          "process: %s\n%s%s" % (path, p.stdout, p.stderr))

    complete = res.exhausted and not violations
    unreached = []
    if complete:
        for h in hs:
            got = res.per_harness.get(h.name, {}).get("reached", {})
            for r in h.reach:
                if r not in got:
                    unreached.append("%s: %s" % (h.name, r))
    left = st.dropped + st.incomplete
    if complete and st.completed == 0:
        errors.append("no path completed")

    verdict = "violation" if violations else "error" if errors or \
        unreached else "held"
    ev = {
        "property": prop, "tier": a.tier, "seed": seed,
        "level": "model_checking", "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "states": st.completed + len(res.candidates),
            "transitions": st.forks + st.forced + st.choices,
            "traces_validated_against_impl": st.native_match,
            "samples": res.samples[:6],
            "paths": st.paths, "paths_completed": st.completed,
            "paths_infeasible": st.infeasible,
            "paths_not_followed": left,
            "exhaustive_within_bounds": bool(complete and left == 0),
            "solver_queries": st.queries,
            "solver_seconds": round(st.solver_s, 3),
            "branches_forked": st.forks, "branches_implied": st.forced,
            "choices": st.choices,
            "assertions_checked": st.checks,
            "assertions_discharged": st.discharged,
            "values_enumerated": st.concretisations,
            "native_replays": st.native_runs,
            "native_replays_agreeing": st.native_match,
            "functions_encoded": sorted(f for f in st.functions
                                        if not f.startswith("vh.")),
            "harnesses": {k: v for k, v in sorted(res.per_harness.items())},
            "bounds": spec.bounds, "outside": spec.outside,
            "stubs_and_assumptions": spec.assumes,
            "reached": st.reached,
        },
        "verdict": verdict,
        "known_findings_seen": [k.what for k in known if k.hit],
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"),
              indent=1, default=str)

    print("%s %s: %d harnesses, %d paths (%d completed, %d not followed), "
          "%d queries, %.1f s solver, %d assertions, %d native replays "
          "agree, %.1f s%s" %
          (prop, a.tier, len(hs), st.paths, st.completed, left, st.queries,
           st.solver_s, st.checks, st.native_match, time.time() - t0,
           "" if complete else ", search not exhausted"))
    if a.v:
        for k, v in sorted(res.per_harness.items()):
            print("  %7.1f s %6d paths  %s  %s" %
                  (v["seconds"], v["paths"], k, v["reached"]))
    for k in known:
        if k.hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k.what))
    for d in res.dropped[:3]:
        print("INCOMPLETE (a path could not be followed): " + d[:1500])
    if violations:
        for c, path, out in violations:
            print("violated: %s [%s]\n%s" % (c["native_label"], c["name"],
                                             out.rstrip()))
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][1]))
        return 1
    for e in errors[:5]:
        print("ERROR: " + e[:3000])
    for u in unreached:
        print("ERROR: vacuous, never reached: " + u)
    if errors or unreached:
        return 2
    if st.dropped > 0.3 * max(1, st.paths):
        print("ERROR: too much of the search could not be followed")
        return 2
    if a.strict and (left or not complete):
        print("STRICT: not exhaustive")
        return 3
    return 0


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "1":
        # the same order of sets in every run
        os.environ["PYTHONHASHSEED"] = "1"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
