"""The workloads' transactions on a real bank."""
import json
import os
import subprocess
import sys

import build

PROCS = 8


def total(into, d):
    for k, v in d.items():
        if isinstance(v, dict):
            total(into.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            into[k] = into.get(k, 0) + v


def run(prop, seed, work, scale, seconds, replays):
    """(coverage, violations): a violation is (what, replay path)."""
    exe, _ = build.heavy()
    outs = [os.path.join(work, "bank%d.json" % i) for i in range(PROCS)]
    kids = [
        subprocess.Popen(
            [exe, "bank", prop, str(i), str(seed), str(scale), str(seconds), o],
            stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL,
            env=build.env(),
        )
        for i, o in enumerate(outs)
    ]
    for k in kids:
        try:
            k.wait(seconds + 240)
        except subprocess.TimeoutExpired:
            k.kill()
            k.wait()
    cov, bad, different, parity, done = {}, [], [], [], 0
    for o in outs:
        try:
            r = json.load(open(o))
        except (OSError, ValueError):
            continue
        done += 1
        different += r.pop("different")
        parity += r.pop("parity_mismatches")
        bad += [v for v in r.pop("violations") if v["property"] == prop]
        r.pop("distinct_shapes")
        for k in ("generate_s", "run_s"):
            r[k] = r[k] / PROCS
        total(cov, r)
    cov["workers"] = done
    cov["generate_s"] = round(cov.get("generate_s", 0), 1)
    cov["run_s"] = round(cov.get("run_s", 0), 1)
    if done == 0:
        sys.stderr.write("the bank workload gave no result\n")
        sys.exit(2)
    # these are about the monitors, not about the code: for whoever keeps them
    for d in different[:3]:
        sys.stderr.write("MODEL-DIFFERENCE: %s\n" % d["difference"])
    for d in parity[:3]:
        sys.stderr.write("REFERENCE-DIFFERENCE: %s\n" % d)
    cov["different_examples"] = [d["difference"] for d in different[:3]] + parity[:3]
    out = []
    os.makedirs(replays, exist_ok=True)
    for n, v in enumerate(bad[:3]):
        path = os.path.join(replays, "%s-bank-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump(v, f)
        out.append((v["what"], path))
    return cov, out
