"""Command-line driver shared by all checks."""

from __future__ import annotations

import argparse
import importlib
import json
import os
import re
import sys
import time
import traceback
import warnings

from . import engine, jsongen
from . import known as known_mod


def main(argv, here, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=engine.NSHARDS)
    args = ap.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    pid = args.property
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(5000)

    try:
        import jsonpath

        src = os.path.realpath(jsonpath.__file__)
        if not src.startswith(os.path.realpath(repo) + os.sep):
            print(f"error: jsonpath was imported from {src}, not from {repo}")
            return 2
        module = importlib.import_module(f"vp.checks.{pid.lower()}")
        jsongen.BIG_INT_NAMES = getattr(module, "BIG_INT_NAMES", False)
    except Exception:
        traceback.print_exc()
        print("error: the code under test or the check could not be imported")
        return 2

    known = known_mod.load(os.path.join(here, "known_findings.json"), pid)

    if args.replay:
        v = engine.replay_file(module, args.replay, [k["id"] for k in known])
        if v is None:
            print("the replayed case passes")
            return 0
        print(v.msg)
        print(json.dumps(engine.jsonable(v.details), indent=1, ensure_ascii=True))
        print(f"VIOLATION property={pid} replay={args.replay}")
        return 1

    t0 = time.monotonic()
    results = engine.run_shards(
        module, pid, tier, args.seed, [k["id"] for k in known],
        scale=args.scale, only=args.only, nshards=args.shards,
    )
    extra = {}
    failures = [f for r in results for f in r["failures"]]
    # One random case that ran out of time is a big input; several are a call that never ends.
    slow = [f["prop"] for f in failures if f.get("timeout")]
    failures = [f for f in failures if not f.get("timeout") or slow.count(f["prop"]) >= engine.MIN_TIMEOUTS]
    errors = [r["error"] for r in results if r["error"]]
    if tier == "thorough" and not failures and not errors and hasattr(engine, "run_fuzz"):
        fz = engine.run_fuzz(module, pid, tier, args.seed, [k["id"] for k in known], here, repo, args.scale)
        extra["coverage_guided_executions"] = fz["execs"]
        failures += fz["failures"]
        errors += fz["errors"]

    # Known findings: replayed, never searched for.
    for k in known:
        try:
            still = known_mod.check(k)
        except Exception:
            errors.append(traceback.format_exc())
            continue
        if still:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        else:
            print(f"note: known finding {k['id']} of {pid} no longer fails")

    labels = {}
    keys = set()
    samples = []
    per_prop = {}
    evals = 0
    inconclusive = False
    for r in results:
        if "evals" not in r:
            continue
        evals += r["evals"]
        inconclusive |= r["inconclusive"]
        for k, n in r["labels"].items():
            labels[k] = labels.get(k, 0) + n
        keys |= r["keys"]
        samples += r["samples"]
        for k, (n, t) in r["per_prop"].items():
            a, b = per_prop.get(k, (0, 0.0))
            per_prop[k] = (a + n, max(b, t))
    wall = time.monotonic() - t0

    # One report per sub-property: the smallest failure.
    best = {}
    for f in failures:
        size = (not f["reproduced"], len(f.get("choices") or ()), len(json.dumps(engine.jsonable(f["details"]))))
        if f["prop"] not in best or size < best[f["prop"]][0]:
            best[f["prop"]] = (size, f)
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(keys),
            "rule": module.RULE,
            "samples": [engine.jsonable(s) for s in samples[:8]],
            "labels": dict(sorted(labels.items(), key=lambda kv: -kv[1])),
            "per_subproperty": {k: n for k, (n, _) in per_prop.items()},
            "inconclusive": inconclusive,
            **extra,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(best),
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", f"{pid}.json"), "w", encoding="utf-8") as fd:
        json.dump(evidence, fd, indent=1, ensure_ascii=True)
        fd.write("\n")

    for k, (n, t) in sorted(per_prop.items()):
        print(f"{pid} {k}: {n} cases, {t:.1f} s")
    print(
        f"{pid}: {evals} evaluations, {len(keys)} distinct non-trivial, {wall:.1f} s"
        + (" (stopped early)" if inconclusive else "")
    )
    rc = 0
    if best:
        rdir = os.path.join(here, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for name, (_, f) in sorted(best.items()):
            path = os.path.join(rdir, pid + "-" + re.sub(r"[^A-Za-z0-9.]+", "_", name) + ".json")
            rep = {
                "property": pid,
                "prop": name,
                "tier": tier,
                "seed": args.seed,
                "msg": f["msg"],
                "details": engine.jsonable(f["details"]),
                "reproduced": f["reproduced"],
            }
            if "choices" in f:
                rep["choices"] = f["choices"]
            if "case" in f:
                rep["case_repr"] = repr(f["case"])
            with open(path, "w", encoding="utf-8") as fd:
                json.dump(rep, fd, indent=1, ensure_ascii=True)
                fd.write("\n")
            print(f"--- {name}: {f['msg']}")
            for k, v in rep["details"].items():
                print(f"    {k}: {str(v)[:600]}")
            print(f"VIOLATION property={pid} replay={os.path.relpath(path, here)}")
        rc = 1
    if errors:
        for e in errors[:3]:
            print(e)
        print(f"error: {len(errors)} harness errors")
        if rc == 0:
            rc = 2
    return rc
