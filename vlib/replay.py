"""Runs operations on the natively compiled crates."""
import os
import subprocess
from . import build, oracle


def run(lines, timeout=300):
    """native outputs, one per line; a crash ends the list with None entries"""
    exe = build.replay_binary()
    out = []
    todo = list(lines)
    while todo:
        p = subprocess.run([exe], input="\n".join(todo) + "\n", capture_output=True, text=True, timeout=timeout)
        got = p.stdout.splitlines()
        out += got[:len(todo)]
        if len(got) >= len(todo):
            break
        out.append("panic process died with status %d" % p.returncode)
        todo = todo[len(got) + 1:]
    return out


def bad(lines):
    """[(line, output, message)] for the lines whose native result is wrong"""
    lines = list(dict.fromkeys(lines))
    r = []
    traced = [l for l in lines if l.startswith("ct ")]
    if traced:
        from . import ctnat
        lines = [l for l in lines if not l.startswith("ct ")]
        r = ctnat.run(traced)
    if not lines:
        return r
    for l, o in zip(lines, run(lines)):
        if "BADINPUT" in o:
            raise RuntimeError("malformed replay line: %s" % l)
        m = oracle.judge(l, o)
        if m:
            r.append((l, o, m))
    return r
