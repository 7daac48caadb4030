"""The real command line tool against a node on a real bank."""
import json
import os
import subprocess
import sys

import build

THREADS = 16


def run(prop, seed, work, scenarios, seconds, replays):
    """(exit code, coverage)"""
    exe, cli = build.heavy()
    out = os.path.join(work, "cli.json")
    scratch = os.path.join(work, "scenarios")
    a = [exe, "cli", prop, str(seed), str(scenarios), str(seconds), str(THREADS), cli, scratch, out]
    with open(os.path.join(work, "cli.log"), "wb") as log:
        try:
            subprocess.run(
                a,
                stdin=subprocess.DEVNULL,
                stdout=log,
                stderr=log,
                env=build.env(),
                timeout=seconds + 240,
            )
        except subprocess.TimeoutExpired:
            sys.stderr.write("the command line workload does not end\n")
    try:
        r = json.load(open(out))
    except (OSError, ValueError):
        with open(os.path.join(work, "cli.log"), errors="replace") as log:
            sys.stderr.write("the command line workload gave no result\n" + log.read()[-2000:])
        return 2, {}
    bad = [v for v in r.pop("violations") if v["property"] == prop]
    moot = sum(v for k, v in r["observed"].items() if k.startswith("inconclusive"))
    cov = dict(r)
    cov["evaluations"] = cov.pop("scenarios") - moot
    cov["distinct_nontrivial"] = cov.pop("distinct")
    cov["violations"] = len(bad)
    if moot:
        sys.stderr.write("%d scenarios were inconclusive\n" % moot)
    if cov["evaluations"] * 2 < moot or cov["evaluations"] == 0:
        return 2, cov
    os.makedirs(replays, exist_ok=True)
    for n, v in enumerate(bad[:5]):
        path = os.path.join(replays, "%s-cli-%d.json" % (prop, n))
        v["rerun"] = " ".join(a[1:4] + ["1", "600", "1", "SPL_SLASHING", "SCRATCH_DIR", "OUT.json", str(v["scenario"])])
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("# " + v["what"][:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return (1 if bad else 0), cov
