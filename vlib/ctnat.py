"""Compares the native instruction and address traces of one operation for several secrets.

A line is `ct OP PUBLIC.. / SECRET.. / SECRET..`: the operation is run once per secret under
valgrind's lackey tool, which prints every instruction fetch, load and store with its address; the
part between the two marked stores must be the same for every secret."""
import os
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
from . import build


def trace(exe, args):
    p = subprocess.run(["valgrind", "--tool=lackey", "--trace-mem=yes", "-q", exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env={"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C"}, timeout=300)
    if b"BADINPUT" in p.stderr:
        raise RuntimeError("malformed line: %s" % (args,))
    mk = p.stdout.split()[1][2:].lstrip(b"0")
    pat = b" S " + b"0" * 8
    out, on = [], 0
    err = p.stderr
    # the two stores to the mark cut the trace out
    key = b" S " + mk.rjust(8, b"0") + b",8\n"
    i = err.find(key)
    j = err.find(key, i + 1)
    if i < 0:
        return None
    return err[i + len(key):j if j >= 0 else len(err)]


def split(line):
    parts = line.split(" / ")
    head = parts[0].split()[1:]
    return head, [x.split() for x in parts[1:]]


def run(lines, jobs=8, budget=420):
    """[(line, output, message)] for the lines whose traces differ"""
    exe = build.ctrace_binary()
    bad = []
    end = time.time() + budget
    with ThreadPoolExecutor(jobs) as ex:
        for line in sorted(lines, key=len):
            if len(bad) >= 3 or time.time() > end:
                break
            head, secs = split(line)
            ref = None
            for k in range(0, len(secs), jobs):
                for sec, t in zip(secs[k:k + jobs], ex.map(lambda s: trace(exe, head + s), secs[k:k + jobs])):
                    if t is None:
                        raise RuntimeError("no marks in the trace of %s" % line[:200])
                    if ref is None:
                        ref, rsec = t, sec
                    elif t != ref:
                        a, b = ref.splitlines(), t.splitlines()
                        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                        bad.append((line, "traces of %d and %d steps, first different at step %d: %s / %s" % (
                            len(a), len(b), i, a[i:i + 1], b[i:i + 1]), "%s touches different addresses for the secrets %s and %s" % (head[0], " ".join(rsec), " ".join(sec))))
                        break
                else:
                    continue
                break
    return bad
