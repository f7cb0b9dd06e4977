"""Builds, from /repo's current tree: the MIR dump and the native replay program."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
STABLE = "stable-x86_64-unknown-linux-gnu"
BUILD = os.path.join(ROOT, "build")


class BuildError(Exception):
    pass


def tree_hash(own):
    h = hashlib.sha256()
    for top in [REPO] + [os.path.join(ROOT, x) for x in own]:
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")) or "const" in f:
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:20]


_hash = {}


def key(*own):
    if own not in _hash:
        _hash[own] = tree_hash(own)
    return _hash[own]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def sh(cmd, cwd, env):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e.update(env)
    e["CARGO_NET_OFFLINE"] = "true"
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def prune(prefix, keep):
    for f in os.listdir(BUILD):
        if f.startswith(prefix) and f != keep:
            try:
                os.remove(os.path.join(BUILD, f))
            except OSError:
                pass


def driver():
    exe = os.path.join(ROOT, "mirdump/target/release/mirdump")
    with Lock("driver"):
        src = os.path.join(ROOT, "mirdump/src/main.rs")
        if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
            sh(["cargo", "build", "--release", "--offline"], os.path.join(ROOT, "mirdump"), {"RUSTUP_TOOLCHAIN": NIGHTLY})
    return exe


def sysroot_lib():
    return subprocess.run(["rustc", "+" + NIGHTLY, "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip() + "/lib"


def dump():
    """path of the MIR dump of the current tree"""
    name = "dump-%s.json" % key("mirdump", "harness")
    out = os.path.join(BUILD, name)
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(out):
        return out
    exe = driver()
    with Lock("dump"):
        if os.path.exists(out):
            return out
        prune("dump-", name)
        tmp = out + ".tmp"
        if os.path.exists(tmp):
            os.remove(tmp)
        h = os.path.join(ROOT, "harness")
        env = {"RUSTUP_TOOLCHAIN": NIGHTLY, "RUSTC_WRAPPER": exe, "MIRDUMP_CRATE": "vharness", "MIRDUMP_OUT": tmp,
               "MIRDUMP_ROOT_CRATES": "libsecp256k1_core,libsecp256k1", "LD_LIBRARY_PATH": sysroot_lib(),
               "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=1 -C debug-assertions=off -C overflow-checks=on -Awarnings",
               "CARGO_TARGET_DIR": os.path.join(BUILD, "htarget")}
        # the harness crate itself is always recompiled: its compilation writes the dump
        for d, ds, fs in os.walk(os.path.join(BUILD, "htarget")):
            for f in list(ds):
                if f.startswith(("vharness", "libvharness")):
                    shutil.rmtree(os.path.join(d, f), ignore_errors=True)
                    ds.remove(f)
        sh(["cargo", "build", "--offline"], h, env)
        if not os.path.exists(tmp):
            raise BuildError("the compiler driver wrote no dump")
        os.rename(tmp, out)
    return out


def replay_binary():
    name = "vreplay-%s" % key("replay")
    out = os.path.join(BUILD, name)
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(out):
        return out
    with Lock("replay"):
        if os.path.exists(out):
            return out
        prune("vreplay-", name)
        sh(["cargo", "build", "--release", "--offline"], os.path.join(ROOT, "replay"),
           {"RUSTUP_TOOLCHAIN": STABLE, "CARGO_TARGET_DIR": os.path.join(BUILD, "rtarget"), "RUSTFLAGS": "-Awarnings"})
        shutil.copy2(os.path.join(BUILD, "rtarget/release/vreplay"), out + ".tmp")
        os.rename(out + ".tmp", out)
    return out


def ctrace_binary():
    """the program whose instruction and address traces are compared (optimised as users build it)"""
    name = "vctrace-%s" % key("ctrace")
    out = os.path.join(BUILD, name)
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(out):
        return out
    with Lock("ctrace"):
        if os.path.exists(out):
            return out
        prune("vctrace-", name)
        sh(["cargo", "build", "--release", "--offline"], os.path.join(ROOT, "ctrace"),
           {"RUSTUP_TOOLCHAIN": STABLE, "CARGO_TARGET_DIR": os.path.join(BUILD, "cttarget"), "RUSTFLAGS": "-Awarnings"})
        shutil.copy2(os.path.join(BUILD, "cttarget/release/vctrace"), out + ".tmp")
        os.rename(out + ".tmp", out)
    return out


class Background(threading.Thread):
    """builds the replay program while the proofs run"""

    def __init__(self):
        super().__init__(daemon=True)
        self.err = None

    def run(self):
        try:
            replay_binary()
        except Exception as e:  # noqa
            self.err = e
