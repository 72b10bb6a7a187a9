"""Writes MANIFEST.json (run by hand when the claims change)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C12": "TLA+ model of threads, locks and lazy evaluation checked with TLC; schedules of the model "
           "forced on the real code and recorded traces validated by TLC",
    "C22": "TLA+ model of calls of several threads (Threads.tla) checked with TLC; its orders of steps and "
           "systematic schedules forced on the real code, recorded traces validated by TLC against "
           "the state machine Collections.tla",
}
DEFAULT = ("TLA+ state machine (Collections.tla) checked with TLC; recorded histories of the real "
           "library validated step by step against it by TLC (CollTrace.tla)")
NOTE = ("Model checking of the specification is exhaustive within the small scope stated in DESIGN.md; "
        "conformance of the code is decided on the replayed model behaviours and on the recorded "
        "random histories of the run. Trusts phamt, CPython, TLC and the value table.")
CLAIMED = ["C%02d" % i for i in range(1, 23)]
SKIP = {}


def main():
    checks = []
    for p in CLAIMED:
        if p in SKIP:
            continue
        checks.append(dict(
            property=p, quick_cmd="python3 harness/check.py %s quick" % p,
            thorough_cmd="python3 harness/check.py %s thorough" % p,
            evidence_file="evidence/%s.json" % p,
            technique=TECH.get(p, DEFAULT), level="model_checking", level_note=NOTE))
    m = dict(version=1, setup_cmd="bash harness/setup.sh", checks=checks,
             not_applicable=[dict(property=k, reason=v) for (k, v) in SKIP.items()],
             notes="No hooks: the harness uses the public interface only, so nothing in /repo is "
                   "instrumented. Commits in /repo are repairs (fix: ...), listed in known_findings.txt.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
