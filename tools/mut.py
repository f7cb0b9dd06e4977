"""development: applies one textual mutation to a scratch copy of /repo and runs lemmas on it.
mut.py FILE OLD NEW [#k] LEMMA...   (scratch space: /tmp/dv, kept between runs)"""
import os, subprocess, sys
f, old, new = sys.argv[1:4]
D = os.environ.get("DV", "/tmp/dv")
os.makedirs(D, exist_ok=True)
subprocess.run(["rsync", "-a", "--delete", "--exclude", "/target", "--exclude", "/.git", "/repo/", D + "/repo/"], check=True)
subprocess.run(["rsync", "-a", "--delete", "--exclude", "/build", "--exclude", "/.git", "--exclude", "/evidence", "--exclude", "/seeded", "/verif/", D + "/verif/"], check=True)
for t in ("harness", "replay", "ctrace"):
    p = D + "/verif/%s/Cargo.toml" % t
    s = open(p).read().replace('"/repo', '"%s/repo' % D)
    open(p, "w").write(s)
p = D + "/repo/" + f
s = open(p).read()
if s.count(old) < 1:
    sys.exit("pattern not found")
k = 1
rest = sys.argv[4:]
if rest and rest[0].startswith("#"):
    k = int(rest.pop(0)[1:])
i = -1
for _ in range(k):
    i = s.index(old, i + 1)
open(p, "w").write(s[:i] + new + s[i + len(old):])
print("MUT", f, repr(old), "->", repr(new), flush=True)
r = subprocess.run(["timeout", "600", "python3-vt", D + "/verif/tools/lem.py"] + rest, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=D + "/repo"))
o = [l[:200] for l in r.stdout.splitlines() if " proved " not in l]
print("\n".join(o[:8]) or ("NOT DETECTED " + r.stderr[-300:]))
