"""Builds what the checks need: rsh from /repo's current working tree, the probe and the shim.

Everything goes to /verif/.build (git-ignored); /repo is only read, apart from what cargo would do anyway.
"""
import fcntl, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RIG = os.path.join(VERIF, "rig")
BUILD = os.path.join(VERIF, ".build")
REPO = os.environ.get("RSH_REPO", "/repo")
VPENV = "/opt/vp/env.sh"


class BuildError(Exception):
    pass


def _cargo(target, extra_env="", toolchain="", args=""):
    lock = os.path.join(target, "lock", "Cargo.lock")
    os.makedirs(os.path.dirname(lock), exist_ok=True)
    script = f"""
set -e
if [ -f {VPENV} ]; then . {VPENV}; fi
if [ -f /opt/vp/Cargo.lock ]; then cmp -s /opt/vp/Cargo.lock {lock} || cp -f /opt/vp/Cargo.lock {lock}; export CARGO_RESOLVER_LOCKFILE_PATH={lock}; fi
export CARGO_TARGET_DIR={target} CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
{extra_env}
cd {REPO}
cargo {toolchain} build --offline --bin rsh {args}
"""
    p = subprocess.run(["bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
    if p.returncode:
        raise BuildError(p.stdout[-4000:])
    return p.stdout


def _forget(target):
    """makes cargo compile rsh itself again, whatever the time stamps of the sources say"""
    for root, dirs, _ in os.walk(target):
        for d in list(dirs):
            if d.startswith("rsh-") and os.path.basename(root) in (".fingerprint", "build", "incremental"):
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                dirs.remove(d)
        if os.path.basename(root) in ("deps", "registry", ".fingerprint", "build"):
            dirs[:] = []


def build(dest, asan=False):
    """builds everything and puts rsh, probe and shim.so into the directory dest"""
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(dest, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        target = os.path.join(BUILD, "target")
        _forget(target)
        _cargo(target)
        shutil.copy2(os.path.join(target, "debug", "rsh"), os.path.join(dest, "rsh"))
        if asan:
            target = os.path.join(BUILD, "target-asan")
            _forget(target)
            _cargo(target, 'export RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes"',
                   args="--target x86_64-unknown-linux-gnu")
            shutil.copy2(os.path.join(target, "x86_64-unknown-linux-gnu", "debug", "rsh"), os.path.join(dest, "rsh-asan"))
        for cmd in (["gcc", "-O1", "-static", "-w", "-o", os.path.join(dest, "probe"), os.path.join(RIG, "probe.c")],
                    ["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", os.path.join(dest, "shim.so"), os.path.join(RIG, "shim.c"), "-ldl"]):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise BuildError(" ".join(cmd) + "\n" + p.stdout)
    for f in os.listdir(dest):
        os.chmod(os.path.join(dest, f), 0o755)


if __name__ == "__main__":
    d = os.path.join(BUILD, "out")
    build(d, asan=True)
    print("built", os.listdir(d))
