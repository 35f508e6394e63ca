"""Builds the simulator against the working tree of the repository and runs it."""

import fcntl
import hashlib
import os
import resource
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, "sim")
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")

# name -> (cargo profile, extra cargo arguments, what it is)
VARIANTS = {
    "checked": ("checked", [], "optimised, debug assertions and overflow checks on"),
    "release": ("release", [], "as shipped: optimised, wrapping arithmetic"),
    "nostd": ("release", ["--no-default-features"], "release, fuel-merkle without its std feature"),
}


class BuildError(Exception):
    pass


def environment():
    env = dict(os.environ)
    env.pop("CARGO_TARGET_DIR", None)
    env.pop("RUSTFLAGS", None)
    env["HOME"] = "/root"
    env["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    return env


def source_stamp():
    """A hash of every file the build depends on."""
    h = hashlib.sha256()
    for top in [os.path.join(REPO, "src"), os.path.join(REPO, "test-helpers"), os.path.join(SIM, "src")]:
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    for p in [os.path.join(REPO, "Cargo.toml"), os.path.join(SIM, "Cargo.toml"), os.path.join(SIM, "Cargo.lock")]:
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build(variant):
    """Returns the path of the simulator built in the given variant."""
    profile, extra, _ = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, variant)
    exe = os.path.join(target, profile, "sim")
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp_file = os.path.join(BUILD, variant + ".stamp")
        stamp = source_stamp()
        try:
            with open(stamp_file) as f:
                old = f.read()
        except OSError:
            old = ""
        if old == stamp and os.path.exists(exe):
            return exe
        env = environment()
        env["CARGO_TARGET_DIR"] = target
        if os.path.isdir(target):
            # Time stamps may lie (a copied or restored tree), so the crates
            # whose sources are not in the registry are always built anew.
            subprocess.run(
                ["cargo", "clean", "--offline", "--profile", profile,
                 "-p", "fuel-merkle", "-p", "fuel-merkle-test-helpers", "-p", "sim"],
                cwd=SIM, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(exe):
                os.remove(exe)
            if os.path.exists(stamp_file):
                os.remove(stamp_file)
        r = subprocess.run(
            ["cargo", "build", "--offline", "--quiet", "--profile", profile] + extra,
            cwd=SIM, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(exe):
            raise BuildError(r.stdout[-6000:])
        if source_stamp() == stamp:
            with open(stamp_file, "w") as f:
                f.write(stamp)
    return exe


def limits(cpu=None, gb=20):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
    return f


def run(args, timeout, cpu=None, quiet=True, gb=20):
    """Runs the simulator; returns (exit code, output). A negative code is the
    signal that ended it; None a time-out."""
    try:
        r = subprocess.run(args, timeout=timeout, preexec_fn=limits(cpu, gb),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE if quiet else None,
                           text=True, errors="replace")
        return r.returncode, (r.stdout or "") + (r.stderr or "" if quiet else "")
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return None, out.decode(errors="replace") if isinstance(out, bytes) else out


def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)
