"""development driver: run lemmas by prefix and check their batteries"""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib import main, build, mir, framework as fw, replay
main.load()
pats = [a for a in sys.argv[1:] if not a.startswith("-")]
import fnmatch
names = [n for n in fw.LEMMAS if any(fnmatch.fnmatchcase(n, p) for p in pats)]
P = mir.Program(build.dump())
tier = "thorough" if "-t" in sys.argv or "-b" in sys.argv else "quick"
res = fw.run_lemmas(P, names, tier, 1, verbose=True)
if "-b" in sys.argv or any(res[n]["fails"] for n in names):
    lines = list(dict.fromkeys(c for n in names for c in res[n]["cands"]))
    t = time.time()
    b = replay.bad(lines)
    print(len(lines), "replayed in %.1fs," % (time.time() - t), len(b), "bad")
    for x in b[:8]:
        print(str(x)[:160], "...", x[1][:160] if x[0].startswith("ct ") else "")
for n in names:
    for x in res[n]["notes"]:
        print(n, x)
