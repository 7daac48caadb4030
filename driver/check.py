import json
import os
import shutil
import subprocess
import sys
import time

import build
import cli
import heavy
import miri
import props


def known(prop):
    """Listed findings of a property: {id: description}."""
    out = {}
    with open(os.path.join(build.ROOT, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding: "):
                w = line[len("finding: "):].split(" ", 2)
                if w[0] == "property=" + prop:
                    out[w[1].split("=", 1)[1]] = w[2]
    return out


def evidence(prop, tier, seed, t0, cov, assumptions, violations):
    d = os.path.join(build.ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    e = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")


def fast(prop, tier, seed, work, replays):
    bins = {"debug": build.meter()} if prop == "C25" else build.fast()
    sc = props.QUICK if tier == "quick" else props.THOROUGH
    out = os.path.join(work, "fast.json")
    if prop == "C25":
        more = ["%s=counting basic blocks" % bins["debug"]]
    else:
        more = ["%s=overflow and debug checks on" % bins["debug"], "%s=checks off" % bins["release"]]
    if prop == "C15":
        more += ["%s=AddressSanitizer" % build.asan()]
    r = subprocess.run(
        [bins["debug"], "check", prop, tier, str(seed), str(sc["scale"]), str(sc["seconds"]), work, replays, out]
        + more,
        stdin=subprocess.DEVNULL,
    )
    try:
        cov = json.load(open(out))
    except (OSError, ValueError):
        cov = {}
    rc = r.returncode
    if prop == "C25" and rc == 0 and not cov.get("max_basic_blocks"):
        sys.stderr.write("no basic blocks were counted\n")
        rc = 2
    if prop not in props.NO_BANK and rc in (0, 1):
        cov["bank"], bad = heavy.run(prop, seed, work, sc["bank_scale"], sc["bank_seconds"], replays)
        for what, path in bad:
            print("# on the real runtime: " + what)
            print("VIOLATION property=%s replay=%s" % (prop, path))
        cov["violations"] = cov.get("violations", 0) + len(bad)
        if bad:
            rc = 1
    if prop == "C15" and rc in (0, 1):
        secs, limit = (40, 400) if tier == "quick" else (400, 4000)
        cov["miri"], bad = miri.run(bins["debug"], seed, work, secs, replays, limit)
        for what, path in bad:
            print("# " + what)
            print("VIOLATION property=%s replay=%s" % (prop, path))
        cov["violations"] = cov.get("violations", 0) + len(bad)
        if bad:
            rc = 1
    return rc, cov


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    ev = os.path.join(build.ROOT, "evidence", prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    work = os.path.join(build.TARGET, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replays = os.path.join(build.ROOT, "evidence", "replays")
    _, rule, assumptions = props.ALL[prop]
    if prop in props.CLI:
        sc = props.QUICK if tier == "quick" else props.THOROUGH
        rc, cov = cli.run(prop, seed, work, sc["cli"], sc["cli_seconds"], replays)
    else:
        rc, cov = fast(prop, tier, seed, work, replays)
    violations = cov.pop("violations", 0)
    cov["rule"] = rule
    if rc in (0, 1) and cov.get("evaluations", 0) > 0:
        evidence(prop, tier, seed, t0, cov, assumptions, violations)
        print(
            "%s %s: %d executions observed, %d distinct non-trivial, %d violations, %.0f s"
            % (prop, tier, cov["evaluations"], cov["distinct_nontrivial"], violations, time.time() - t0)
        )
    shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc if rc in (0, 1) else 2)


main()
