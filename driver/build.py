"""Building the harnesses against /repo's current working tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(ROOT, "target")


def env(**more):
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="1.86.0",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="1",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        RUST_LOG="error",
        RUST_BACKTRACE="0",
    )
    for k in ("BPF_OUT_DIR", "SBF_OUT_DIR", "RUSTFLAGS"):
        e.pop(k, None)
    e.update(more)
    return e


def sources():
    """A digest of the code under test (contents, not times)."""
    h = hashlib.sha256()
    todo = [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock")]
    for top in ("program", "clients"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
            todo += [os.path.join(d, f) for f in sorted(fs)]
    for f in todo:
        h.update(f.encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            h.update(b"-")
    return h.hexdigest()


OURS = ("solana-slashing-program-", "solana-slashing-cli-", "slashheavy-")


class Lock:
    def __init__(self, name):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, "." + name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def refresh(tdir):
    """Cargo goes by times: forget the code under test when contents changed."""
    stamp = os.path.join(tdir, ".sources")
    now = sources()
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old != now:
        for d, ds, _ in os.walk(tdir):
            if os.path.basename(d) == ".fingerprint":
                for x in ds:
                    if x.startswith(OURS):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                ds[:] = []
            elif d.count(os.sep) - tdir.count(os.sep) > 3:
                ds[:] = []
        os.makedirs(tdir, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(now)


def run(cmd, cwd, e, log):
    with open(log, "ab") as f:
        f.write(("$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(open(log, errors="replace").read()[-6000:])
        sys.stderr.write("\nbuild failed: %s\n" % " ".join(cmd))
        sys.exit(2)


def log(name):
    os.makedirs(TARGET, exist_ok=True)
    p = os.path.join(TARGET, name + ".log")
    open(p, "w").close()
    return p


def fast(profiles=("debug", "release")):
    """The monitor harness, with and without arithmetic checks."""
    tdir = os.path.join(TARGET, "fast")
    with Lock("fast"):
        refresh(tdir)
        lg = log("build-fast")
        for p in profiles:
            cmd = ["cargo", "build", "--offline"] + (["--release"] if p == "release" else [])
            run(cmd, os.path.join(ROOT, "fast"), env(CARGO_TARGET_DIR=tdir), lg)
    return {p: os.path.join(tdir, p, "slashmon") for p in profiles}


def asan():
    """The monitor harness under AddressSanitizer."""
    tdir = os.path.join(TARGET, "asan")
    tr = "x86_64-unknown-linux-gnu"
    with Lock("asan"):
        refresh(tdir)
        run(
            ["cargo", "build", "--offline", "--features", "asan", "--target", tr],
            os.path.join(ROOT, "fast"),
            env(CARGO_TARGET_DIR=tdir, RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=address -Awarnings"),
            log("build-asan"),
        )
    return os.path.join(tdir, tr, "debug", "slashmon")


def meter():
    """The monitor harness counting the basic blocks that on-chain code executes."""
    tdir = os.path.join(TARGET, "meter")
    with Lock("meter"):
        refresh(tdir)
        run(
            ["cargo", "build", "--offline", "--release", "--features", "meter"],
            os.path.join(ROOT, "fast"),
            env(CARGO_TARGET_DIR=tdir, RUSTC_WRAPPER=os.path.join(ROOT, "driver", "meter.sh")),
            log("build-meter"),
        )
    return os.path.join(tdir, "release", "slashmon")


MIRI = "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation"


def miri_env():
    return env(
        CARGO_TARGET_DIR=os.path.join(TARGET, "miri"),
        RUSTUP_TOOLCHAIN="nightly",
        MIRIFLAGS=MIRI,
        RUSTFLAGS="-Awarnings",
        MIRI_SYSROOT=os.path.join(TARGET, "miri-sysroot"),
    )


MIRI_RUN = ["cargo", "miri", "run", "--offline", "-q", "--"]


def miri():
    """The monitor harness for the Miri interpreter."""
    tdir = os.path.join(TARGET, "miri")
    with Lock("miri"):
        refresh(tdir)
        lg = log("build-miri")
        e = miri_env()
        root = e.pop("MIRI_SYSROOT")
        if not os.path.isdir(root):
            # building its standard library is part of setting it up
            e["XDG_CACHE_HOME"] = os.path.join(TARGET, "miri-cache")
            r = subprocess.run(
                ["cargo", "miri", "setup", "--print-sysroot"], cwd=ROOT, env=e, capture_output=True, text=True
            )
            if r.returncode != 0:
                sys.stderr.write(r.stderr[-3000:])
                sys.exit(2)
            os.symlink(r.stdout.strip().splitlines()[-1], root)
        run(MIRI_RUN + ["interpret", "/nonexistent", "0"], os.path.join(ROOT, "fast"), miri_env(), lg)


def heavy():
    """The harness on the real runtime, and the CLI; shares /repo's compiled dependencies."""
    tdir = os.path.join(TARGET, "heavy")
    with Lock("heavy"):
        mine, theirs = os.path.join(tdir, "debug"), os.path.join(REPO, "target", "debug")
        if not os.path.isdir(mine) and os.path.isdir(theirs):
            shutil.rmtree(tdir + ".new", ignore_errors=True)
            os.makedirs(tdir + ".new")
            shutil.copytree(
                theirs,
                os.path.join(tdir + ".new", "debug"),
                symlinks=True,
                copy_function=shutil.copy2,
                ignore=shutil.ignore_patterns("incremental"),
            )
            shutil.rmtree(tdir, ignore_errors=True)
            os.rename(tdir + ".new", tdir)
        refresh(tdir)
        lg = log("build-heavy")
        e = env(CARGO_TARGET_DIR=tdir, CARGO_PROFILE_DEV_DEBUG="line-tables-only")
        run(["cargo", "build", "--offline"], os.path.join(ROOT, "heavy"), e, lg)
    d = os.path.join(tdir, "debug")
    return os.path.join(d, "slashheavy"), os.path.join(d, "spl-slashing")
