"""Recorded transactions under the Miri interpreter."""
import json
import os
import random
import re
import subprocess

import build

PROCS = 8


def corpus(slashmon, seed, work, scale):
    """Record transactions of every workload; order them for diversity."""
    outs = [os.path.join(work, "rec%d.json" % i) for i in range(4)]
    kids = [
        subprocess.Popen(
            [slashmon, "worker", "C15", str(i), str(seed), str(scale), o, "60", "--record"],
            stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL,
        )
        for i, o in enumerate(outs)
    ]
    for k in kids:
        k.wait()
    groups = {}
    for o in outs:
        try:
            rec = json.load(open(o))["recorded"]
        except (OSError, ValueError, KeyError):
            continue
        for r in rec:
            if r["codes"]:
                s = json.dumps(r)
                if len(s) < 40000:
                    groups.setdefault((r["workload"], tuple(r["codes"])), []).append(s)
    rng = random.Random(seed)
    keys = sorted(groups)
    rng.shuffle(keys)
    for k in keys:
        rng.shuffle(groups[k])
    # one of each result first, then one of each (workload, result), then more
    order, seen = [], set()
    for k in keys:
        if k[1] not in seen:
            seen.add(k[1])
            order.append(groups[k].pop())
    while any(groups.values()):
        for k in keys:
            if groups[k]:
                order.append(groups[k].pop())
    return order


def run(slashmon, seed, work, seconds, replays, limit):
    """(coverage, violations): a violation is (what, replay path)."""
    build.miri()
    order = corpus(slashmon, seed, work, 0.3)[:limit]
    d = os.path.join(work, "miri")
    os.makedirs(d, exist_ok=True)
    for i, s in enumerate(order):
        with open(os.path.join(d, "%d.json" % i), "w") as f:
            f.write(s)
    kids = []
    for p in range(PROCS):
        mine = [str(i) for i in range(p, len(order), PROCS)]
        o = open(os.path.join(d, "out%d" % p), "w")
        e = open(os.path.join(d, "err%d" % p), "w")
        kids.append(
            subprocess.Popen(
                build.MIRI_RUN + ["interpret", d, str(seconds)] + mine,
                cwd=os.path.join(build.ROOT, "fast"),
                env=build.miri_env(),
                stdin=subprocess.DEVNULL,
                stdout=o,
                stderr=e,
            )
        )
    ran, shapes, violations, unfinished = 0, set(), [], 0
    for p, k in enumerate(kids):
        try:
            k.wait(timeout=seconds + 90)
        except subprocess.TimeoutExpired:
            k.kill()
            k.wait()
            unfinished += 1
        out = open(os.path.join(d, "out%d" % p)).read().split("\n")
        err = open(os.path.join(d, "err%d" % p), errors="replace").read()
        items = [int(x.split()[1]) for x in out if x.startswith("run ")]
        done = any(x.startswith("ran ") for x in out)
        ub = re.search(r"error: Undefined Behavior: .*", err)
        whats = []
        if ub and items:
            at = re.search(r"--> (\S*/repo/program/\S+|\S*program/src/\S+)", err)
            whats.append((items[-1], "Miri: %s%s" % (ub.group(0)[7:], " at " + at.group(1) if at else "")))
        for x in out:
            if x.startswith("differs "):
                whats.append((int(x.split()[1]), "result differs under Miri: " + x))
        for i, w in whats:
            r = json.loads(order[i])
            r["property"], r["violation"], r["miri"] = "C15", w, err[-4000:]
            os.makedirs(replays, exist_ok=True)
            path = os.path.join(replays, "C15-miri-%d.json" % i)
            with open(path, "w") as f:
                json.dump(r, f, indent=1)
            violations.append((w, path))
        good = items if done else items[:-1]
        if not done and not ub:
            unfinished += 1
        ran += len(good)
        for i in good:
            r = json.loads(order[i])
            shapes.add((r["workload"], tuple(r["codes"])))
    cov = {
        "transactions": ran,
        "distinct_workload_and_result": len(shapes),
        "corpus": len(order),
        "interpreters_without_result": unfinished,
    }
    return cov, violations
