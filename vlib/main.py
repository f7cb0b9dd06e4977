"""check <property>: decides one property on /repo's current tree."""
import importlib
import json
import os
import sys
import time
from . import build, framework as fw, mir, replay

MODULES = ["l1field", "l1scalar", "l2", "l3", "l4", "l5", "l6", "l7", "l8", "props"]


def load():
    for m in MODULES:
        if os.path.exists(os.path.join(build.ROOT, "vlib", m + ".py")):
            importlib.import_module("vlib." + m)


def known():
    r = {}
    p = os.path.join(build.ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN property="):
                _, pid, line = l.split(None, 2)
                r.setdefault(pid.split("=")[1], {})[line.split(" # ")[0].strip()] = l
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    load()
    pr = fw.PROPS[pid]
    names = list(pr["quick"]) + [n for n in pr["thorough"] if tier == "thorough" and n not in pr["quick"]]
    try:
        bg = build.Background()
        bg.start()
        dump = build.dump()
        P = mir.Program(dump)
    except build.BuildError as e:
        print("ERROR: cannot build:", e)
        return 2
    tb = time.time() - t0
    print("%s (%s): %d lemmas, build %.1fs" % (pid, tier, len(names), tb), flush=True)
    res = fw.run_lemmas(P, names, tier, seed, verbose=True)
    fails = [(n, f) for n in names for f in res[n]["fails"]]
    others = []
    if pr["panics"]:
        others = [x for x in fails if not fw.about_panics(x[1][0])]
        fails = [x for x in fails if fw.about_panics(x[1][0])]
    if pr["traces"]:
        others = [x for x in fails if not x[0].startswith("X.")]
        fails = [x for x in fails if x[0].startswith("X.")]
    lines = list(dict.fromkeys(c for n in names for c in res[n]["cands"] if not pr["traces"] or c.startswith("ct ")))
    viol = []
    ran = 0
    if lines:
        bg.join()
        if bg.err:
            print("ERROR: cannot build the replay program:", bg.err)
            return 2
        kn = known().get(pid, {})
        ran = len(lines)
        for l, o, m in replay.bad(lines):
            if pr["panics"] and not o.startswith("panic"):
                continue
            if l in kn:
                print("KNOWN-FINDING: property=%s %s" % (pid, kn[l]))
            else:
                viol.append((l, o, m))
    bg.join()
    rp = None
    if viol:
        os.makedirs(os.path.join(build.BUILD, "replay"), exist_ok=True)
        rp = os.path.join(build.BUILD, "replay", pid + ".txt")
        with open(rp, "w") as f:
            f.write("# property %s: inputs whose native result contradicts the property.\n" % pid)
            f.write("# replay: %s < (the lines not starting with #)\n" % build.replay_binary())
            for l, o, m in viol[:50]:
                f.write("%s\n#   native: %s\n#   %s\n" % (l, o, m))
            for n, x in fails:
                f.write("# failed: %s: %s\n" % (n, x))
    allchecks = [(n, c, s) for n in names for c, s in res[n]["checks"] if not pr["panics"] or fw.about_panics(c)]
    enc, con = {}, {}
    for n in names:
        for k, v in res[n]["encoded"].items():
            enc[k] = enc.get(k, 0) + v
        for k, v in res[n]["contracts_used"].items():
            con[k] = con.get(k, 0) + v
    ev = dict(property=pid, tier=tier, seed=seed, level="other", wall_s=round(time.time() - t0, 2), violations=len(viol),
              assumptions=sorted({a for n in names for a in fw.LEMMAS[n].assumes}),
              coverage=dict(
                  explanation="Solver-based checking of the real code: the MIR of the listed functions, dumped from /repo's current tree, "
                              "is executed symbolically and each obligation is discharged by z3 for all values within the bounds. " + pr["note"],
                  obligations=len(allchecks), discharged=sum(1 for x in allchecks if x[2] == "proved"),
                  queries=sum(res[n]["queries"] for n in names), solver_s=round(sum(res[n]["solver_s"] for n in names), 2),
                  lemmas={n: dict(bounds=res[n]["bounds"], checks=len(res[n]["checks"]), queries=res[n]["queries"], solver_s=res[n]["solver_s"],
                                  wall_s=res[n]["wall_s"], fails=[list(map(str, f))[:3] for f in res[n]["fails"]][:5], notes=res[n]["notes"][:5]) for n in names},
                  samples=[list(x) for x in allchecks[:12]],
                  functions_encoded=sorted(k for k in enc if "libsecp256k1" in k), functions_encoded_total=len(enc),
                  contracts_used=sorted(con), symbolic_steps=sum(res[n]["steps"] for n in names), forks=sum(res[n]["forks"] for n in names),
                  contracts_not_established=["%s: %s" % (n, f[0]) for n, f in others][:50],
                  outside_the_bounds=pr["outside"], candidates_replayed_natively=ran,
                  tree=build.key()))
    os.makedirs(os.path.join(build.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(build.ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged, %d queries, solver %.1fs, wall %.1fs" % (
        pid, ev["coverage"]["discharged"], len(allchecks), ev["coverage"]["queries"], ev["coverage"]["solver_s"], ev["wall_s"]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  ", viol[0][0][:300], "->", viol[0][2][:300])
        return 1
    if others:
        print("NOTE: %d obligations about results, used as contracts here, do not hold on this tree: see the properties they decide" % len(others))
    soft = [x for x in fails if x[1][1] == "native"]
    if soft and len(soft) == len(fails):
        print("NOTE: %d branches of the source are not branches of the compiled code: the traces of the counterexamples agree" % len(soft))
        return 0
    if fails:
        print("INCONCLUSIVE property=%s: %d obligations not discharged and no failing input found" % (pid, len(fails)))
        return 2
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
