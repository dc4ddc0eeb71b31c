"""Entry point: run one property check, write its evidence, print the verdict."""
import argparse
import importlib
import json
import os
import sys
import traceback

from . import common
from .common import Clock, Res, jdump

REGISTRY = {}
for _mod, _pids in {
    "manager": "C01 C02 C03 C04 C05 C06 C07 C08 C09", "clustering": "C10 C11 C12 C13 C32", "hierarchy": "C14 C15", "kmeans": "C16 C30",
    "similar": "C17", "invariance": "C18 C19 C20 C33", "sampling": "C21 C22 C23 C24", "validation": "C25", "utilities": "C26 C27 C28",
    "loop": "C29", "mpc": "C31",
}.items():
    for _p in _pids.split():
        REGISTRY[_p] = _mod


def finding_key(pid, case):
    return common.digest([pid, case])


def main_io():
    for f in (sys.stdout, sys.stderr):  # messages may hold any character of any data ID
        if hasattr(f, "reconfigure"):
            f.reconfigure(errors="backslashreplace")


def main():
    main_io()
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("path", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    args = ap.parse_args()
    common.setup_import()
    if args.what == "replay":
        art = json.load(open(args.path, encoding="utf-8"))
        mod = importlib.import_module("mc." + REGISTRY[art["property"]])
        msgs = mod.replay(art["property"], art["case"])
        for m in msgs:
            print(m)
        print("REPRODUCED" if msgs else "NOT REPRODUCED", art["property"])
        return 1 if msgs else 0
    if args.what == "selftest":
        for m in sorted(set(REGISTRY.values())):
            importlib.import_module("mc." + m)
        common.lib("constraints.binary")
        print("ok")
        return 0
    pid = args.what
    mod = importlib.import_module("mc." + REGISTRY[pid])
    clock = Clock()
    res = Res()
    try:
        mod.check(pid, args.tier, res)
    except common.CallTimeout:
        res.problem({"kind": "driver"}, "no answer within the CPU-time limit")
    except Exception:  # noqa
        # The driver only calls documented library operations on valid input: an escaping exception is a violation,
        # unless it comes from the machinery itself.
        tb = traceback.format_exc()
        if "/repo/src" in tb:
            res.problem({"kind": "driver", "traceback": tb}, "unexpected exception in the library")
        else:
            raise
    known = {f["key"]: f for f in common.known_findings()["findings"] if f["property"] == pid}
    new, old = [], []
    for case, msg in res.problems:
        k = finding_key(pid, case)
        (old if k in known else new).append((case, msg, k))
    seen_known = sorted({k for _, _, k in old})
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    rc = 0
    if new:
        case, msg, k = new[0]
        path = os.path.join(common.VERIF, "evidence", "replay", "%s-%s.json" % (pid, k))
        jdump({"property": pid, "message": msg, "case": case, "how": "./run.sh replay " + path}, path)
        try:
            again = [bool(mod.replay(pid, case)) for _ in range(2)]
        except Exception as e:  # noqa
            again = [repr(e)]
        print("counterexample: %s" % msg)
        print("case: %s" % json.dumps(case, default=str)[:2000])
        print("replayed without the explorer: %s" % again)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    coverage = {
        "states": res.states,
        "transitions": res.transitions,
        "traces_validated_against_impl": res.traces,
        "distinct_outcomes": len(res.outcomes),
        "exhaustive": not res.extra.get("capped_scopes") and not new,
        "rule": getattr(mod, "RULES", {}).get(pid, getattr(mod, "RULE", "")),
        "samples": res.samples[:4] or [c for c, _ in res.problems[:1]],
        "detail": res.extra,
    }
    jdump({"property": pid, "tier": "thorough" if args.tier == "thorough" else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
           "level": "model_checking", "coverage": coverage,
           "assumptions": getattr(mod, "ASSUMES", {}).get(pid, getattr(mod, "ASSUME", [])),
           "wall_s": clock.s(), "violations": len(new)}, os.path.join(common.VERIF, "evidence", pid + ".json"))
    print("%s %s: states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs %s"
          % (pid, args.tier, res.states, res.transitions, res.traces, len(res.outcomes), clock.s(), "VIOLATED" if new else "held"))
    return rc


if __name__ == "__main__":
    sys.exit(main())
