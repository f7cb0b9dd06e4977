"""development: make /verif/seeded/<id> from tools/seeds/*.py and confirm it in a scratch copy.
usage: mkseed.py [ids...]"""
import glob, json, os, subprocess, sys, shutil
here = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(here)
W = "/tmp/seedwork"
SEEDS = {}
PRE = open(os.path.join(here, "seeds/prelude.rs")).read()
DEMO = """#!/bin/bash
# run with cwd /repo; exit 0 when the property holds for the demonstration's inputs
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp Cargo.lock "$T/Cargo.lock" 2>/dev/null || true
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
libsecp256k1 = { path = "$R" }
libsecp256k1-core = { path = "$R/core" }
sha2 = { version = "0.9", default-features = false }
rand = { version = "0.8", default-features = false }
serde = { version = "1.0", default-features = false }
serde_json = "1.0"
bincode = "1.3.3"
subtle = { version = "2.2", default-features = false }
EOF
if grep -q lackey "$T/src/main.rs"; then
    printf '[profile.dev]\nopt-level = 3\ndebug-assertions = false\noverflow-checks = false\n' >> "$T/Cargo.toml"
fi
cd "$T"
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true
timeout 280 cargo run --offline -q
"""

def seed(id, prop, file, edits, needs, breaks, demo):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo)

for f in sorted(glob.glob(os.path.join(here, "seeds/*.py"))):
    exec(compile(open(f).read(), f, "exec"))

def run(cmd, cwd, t=900):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)

def main():
    ids = sys.argv[1:] or [i for i in SEEDS if not os.path.exists(os.path.join(ROOT, "seeded", i, "meta.json"))]
    stable = json.load(open("/opt/vp/BASELINE.json"))
    if not os.path.exists(W):
        os.makedirs(W)
    subprocess.run("rsync -a --delete --exclude target /repo/ %s/repo/ 2>/dev/null || (mkdir -p %s/repo && cd /repo && git archive HEAD | tar -x -C %s/repo)" % (W, W, W), shell=True)
    subprocess.run("cp -n /repo/Cargo.lock %s/repo/ ; cd %s/repo && ( [ -d .git ] || git init -q ) " % (W, W), shell=True)
    R = W + "/repo"
    for i in ids:
        s = SEEDS[i]
        p = os.path.join(R, s["file"])
        files = {}
        for e in s["edits"]:
            if len(e) == 2: fn, (old, new), k = s["file"], e, 1
            elif len(e) == 3 and isinstance(e[2], int): fn, old, new, k = s["file"], *e
            else: fn, old, new, k = (list(e) + [1])[:4]
            p = os.path.join(R, fn)
            if fn not in files: files[fn] = open("/repo/" + fn).read()
            t = files[fn]
            j = -1
            for _ in range(k):
                j = t.index(old, j + 1)
            files[fn] = t[:j] + new + t[j + len(old):]
        for fn, t in files.items(): open(os.path.join(R, fn), "w").write(t)
        d = os.path.join(ROOT, "seeded", i)
        os.makedirs(d, exist_ok=True)
        # the patch against /repo's HEAD
        diff = ""
        for fn in files:
            x = run(["diff", "-u", "--label", "a/" + fn, "--label", "b/" + fn, "/repo/" + fn, os.path.join(R, fn)], "/")
            diff += "diff --git a/%s b/%s\n" % (fn, fn) + x.stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(PRE + s["demo"])
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json.tmp", "w"), indent=1)
        ok = run(["git", "apply", "--check", d + "/patch.diff"], "/repo").returncode == 0
        a = run([d + "/demo.sh"], "/repo")
        b = run([d + "/demo.sh"], R)
        env = dict(os.environ, CARGO_TARGET_DIR=W + "/target", CARGO_NET_OFFLINE="true")
        t = subprocess.run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], cwd=R, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        failed = [l for l in t.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("FAILED")]
        passed = sum(1 for l in t.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("ok"))
        good = ok and a.returncode == 0 and b.returncode != 0 and not failed and passed >= 20
        print(i, s["prop"], "GOOD" if good else "BAD", "applies", ok, "demo clean", a.returncode, "demo bug", b.returncode, "tests", passed, "failed", failed, flush=True)
        if not good:
            print(a.stdout[-1500:] if a.returncode else "", b.stdout[-600:], t.stdout[-1500:] if passed < 20 else "")
            shutil.rmtree(d)
        else:
            os.rename(d + "/meta.json.tmp", d + "/meta.json")
        for fn in files: shutil.copy("/repo/" + fn, os.path.join(R, fn))
main()
