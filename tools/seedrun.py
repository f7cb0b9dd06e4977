"""development: run the property's check against seeded bugs, in a scratch copy (safe while vcheck runs).
usage: seedrun.py [-q] [ids]      (scratch space: $DS or /tmp/ds, kept between runs)"""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
ids = a or sorted(os.listdir(ROOT + "/seeded"))
D = os.environ.get("DS", "/tmp/ds")
os.makedirs(D, exist_ok=True)

def fresh():
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "/target", "--exclude", "/.git", "/repo/", D + "/repo/"], check=True)

subprocess.run(["rsync", "-a", "--delete", "--exclude", "/build", "--exclude", "/.git", "--exclude", "/evidence", "--exclude", "/seeded", ROOT + "/", D + "/verif/"], check=True)
os.makedirs(D + "/verif/evidence", exist_ok=True)
for t in ("harness", "replay", "ctrace"):
    p = D + "/verif/%s/Cargo.toml" % t
    s = open(p).read().replace('"/repo', '"%s/repo' % D)
    open(p, "w").write(s)
for i in ids:
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, i)))
    fresh()
    subprocess.run("patch -p1 -s < %s/seeded/%s/patch.diff" % (ROOT, i), shell=True, cwd=D + "/repo", check=True)
    t = time.time()
    r = subprocess.run(["./check", m["property"]], cwd=D + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=D + "/repo"))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%-28s %s exit %d %s %.0fs" % (i, m["property"], r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", time.time() - t), flush=True)
    if not v:
        print("\n".join(l[:300] for l in r.stdout.splitlines()[-12:]), flush=True)
