"""Lemmas, their runner, confirmation of failures on the native build, and evidence."""
import json
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import time
import traceback
from . import terms as tm, mir, execu, stdov, zpoly, bv, build

LEMMAS = {}     # name -> Lemma
PROPS = {}      # property -> dict(quick=[names], thorough=[names], battery=fn, ...)


class Lemma:
    def __init__(self, name, fn, bounds, battery, assumes, timeout, dir_):
        self.name, self.fn, self.bounds, self.battery, self.assumes, self.timeout = name, fn, bounds, battery, assumes, timeout
        self.module = dir_


def lemma(name, bounds="", battery=None, assumes=(), timeout=400):
    def d(f):
        LEMMAS[name] = Lemma(name, f, bounds, battery, tuple(assumes), timeout, f.__module__)
        return f
    return d


TECH = "symbolic execution of the compiler's MIR of the real code; obligations discharged by z3 for all values within the bounds"
TRUST = ("Trusts rustc's MIR (dumped from /repo on every run), the symbolic semantics of MIR and of the listed library functions in vlib, "
         "and z3. Bounds and contracts used are listed per lemma in the evidence; a failed obligation counts as a violation only with an "
         "input that the natively compiled code also gets wrong.")


def prop(id, quick, thorough=(), note="", outside="", technique=TECH, level_note="", panics=False, traces=False):
    """panics: the property is only about panics; obligations about results are other properties' business;
    traces: only about secret-independent steps (the X lemmas); results serve as contracts"""
    PROPS[id] = dict(quick=list(quick), thorough=list(thorough), note=note, outside=outside, technique=technique, panics=panics, traces=traces,
                     level_note=(level_note + " " + TRUST).strip())


PANIC = re.compile(r"^no \\w|: no .* at |unreachable panic|no panic is reachable|every arithmetic assertion holds|: does not panic|^(encoding|run|vacuous)$")


def about_panics(name):
    """is the obligation about the absence of panics (or a failure to decide it)"""
    return bool(PANIC.search(name))


class NotProved(Exception):
    pass


class Cx:
    """context of one lemma run"""

    def __init__(self, P, lem, tier, seed):
        self.P, self.lem, self.tier, self.seed = P, lem, tier, seed
        self.rng = random.Random(seed * 1000003 + sum(map(ord, lem.name)))
        self.engines, self.bvs, self.zs = [], [], []
        self.checks = []        # (name, status)
        self.fails = []         # (name, status, detail)
        self.cands = []         # replay lines
        self.notes = []
        self.bounds = [lem.bounds] if lem.bounds else []
        self.extraq = 0
        self.extrat = 0.0

    # -- construction
    def engine(self, *tabs, feas=None, **kw):
        e = execu.Engine(self.P, list(tabs) + [stdov.STD], feas=feas, **kw)
        e.deadline = time.time() + self.lem.timeout
        self.engines.append(e)
        return e

    def bv(self, timeout=60000):
        b = bv.BV(timeout)
        self.bvs.append(b)
        return b

    def z(self, cut=False):
        z = zpoly.ZCtx()
        z.cut = cut
        self.zs.append(z)
        return z

    def fn(self, name):
        return self.P.fn(self.P.find(name))

    def call(self, eng, st, name, args):
        return eng.run_fn(st, self.fn(name), args)

    def find(self, *names):
        for n in names:
            try:
                return self.P.find(n)
            except Exception:
                pass
        raise mir.Unsupported("no function among %s" % (names,))

    # -- results
    def result(self, name, r, cands=(), detail=""):
        """r: 'unsat' = shown; 'sat' = refuted; else unknown"""
        st = {"unsat": "proved", "sat": "refuted", "native": "native"}.get(r, "unknown")
        self.checks.append((name, st))
        if st != "proved":
            self.fails.append((name, st, detail))
            for c in cands:
                self.cands.append(c)
        return st == "proved"

    def true(self, name, cond, cands=(), detail=""):
        return self.result(name, "unsat" if cond else "sat", cands, detail)

    def valid(self, name, B, cond, pc=(), mk=None, timeout=None, native=False):
        """bit-vector validity; mk(env) -> candidate replay lines from a model; native: exact inputs,
        whose replay on the compiled code decides"""
        r, m = B.valid(cond, pc, timeout)
        c = []
        if r == "sat" and mk:
            try:
                c = mk(B.env(m))
            except Exception as e:  # noqa
                self.notes.append("candidate construction failed: %r" % e)
        return self.result(name, "native" if native and r == "sat" and c else r, c)

    def obligations(self, name, eng, B, pre=(), mk=None):
        """every recorded panic is unreachable, every assertion holds"""
        for i, (pc, cond, kind, where, _) in enumerate(eng.obligations):
            if isinstance(cond, int) and cond:
                continue
            self.valid("%s: no %s at %s" % (name, kind, where), B, cond, list(pre) + list(pc), mk)
        for pc, where, msg, _ in eng.panics:
            r, m = B.check(list(pre) + list(pc))
            c = mk(B.env(m)) if r == "sat" and mk else []
            self.result("%s: unreachable panic (%s)" % (name, msg), r, c)

    def no_panics(self, name, eng):
        self.true("%s: no panic is reachable" % name, not eng.panics, detail=str([p[1:3] for p in eng.panics[:3]]))
        bad = [o for o in eng.obligations if not (isinstance(o[1], int) and o[1])]
        self.true("%s: every arithmetic assertion holds" % name, not bad, detail=str([o[2:4] for o in bad[:5]]))

    def one(self, res):
        if len(res) != 1:
            raise mir.Unsupported("%d final states" % len(res))
        return res[0]

    def report(self):
        enc, ovr = {}, {}
        for e in self.engines:
            for k, v in e.encoded.items():
                enc[k] = enc.get(k, 0) + v
            for k, v in e.used_ov.items():
                if "libsecp256k1" in k:
                    ovr[k] = ovr.get(k, 0) + v
        return dict(lemma=self.lem.name, checks=self.checks, fails=self.fails, cands=self.cands[:400],
                    notes=self.notes, bounds=self.bounds, encoded=enc, contracts_used=ovr,
                    queries=sum(b.queries for b in self.bvs) + sum(z.queries for z in self.zs) + self.extraq,
                    solver_s=round(sum(b.time for b in self.bvs) + sum(z.time for z in self.zs) + self.extrat, 3),
                    steps=sum(e.steps for e in self.engines), forks=sum(e.forks for e in self.engines))


def _run(P, name, tier, seed, conn):
    lem = LEMMAS[name]
    cx = Cx(P, lem, tier, seed)
    t = time.time()

    def go():
        lem.fn(cx)
    try:
        execu.with_big_stack(go)
    except (mir.Unsupported, zpoly.NotLinear, NotProved, execu.CantMerge) as e:
        cx.result("encoding", "unknown", detail="%s: %s" % (type(e).__name__, e))
    except Exception as e:  # noqa
        cx.result("encoding", "unknown", detail="%r\n%s" % (e, traceback.format_exc()[-1500:]))
    try:
        if (cx.fails or tier == "thorough") and lem.battery:
            cx.cands += list(lem.battery(cx))
    except Exception as e:  # noqa
        cx.notes.append("battery failed: %r" % e)
    r = cx.report()
    r["cands"] = cx.cands
    if not cx.checks:
        r["fails"].append(("vacuous", "unknown", "the lemma checked nothing"))
    r["wall_s"] = round(time.time() - t, 2)
    conn.send(r)
    conn.close()


def run_lemmas(P, names, tier, seed, jobs=8, budget=820, verbose=False):
    ctx = mp.get_context("fork")
    todo = list(names)
    live = {}
    out = {}
    t0 = time.time()
    while todo or live:
        while todo and len(live) < jobs:
            n = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_run, args=(P, n, tier, seed, b))
            p.start()
            b.close()
            live[n] = (p, a, time.time())
        done = []
        for n, (p, a, t) in live.items():
            if a.poll(0.02):
                try:
                    out[n] = a.recv()
                except EOFError:
                    out[n] = dead(n, "lemma process ended without a result")
                p.join()
                done.append(n)
            elif time.time() - t > LEMMAS[n].timeout + 60 or time.time() - t0 > budget:
                os.kill(p.pid, signal.SIGKILL)
                p.join()
                out[n] = dead(n, "time limit")
                done.append(n)
        for n in done:
            live.pop(n)
            if verbose:
                r = out[n]
                print("  %-34s %-8s %6.1fs  queries %d, solver %.1fs" % (n, "proved" if not r["fails"] else r["fails"][0][1], r["wall_s"], r["queries"], r["solver_s"]), flush=True)
                for f in r["fails"][:6]:
                    print("      ", f[0], f[1], f[2][:1200])
    return out


def dead(n, why):
    return dict(lemma=n, checks=[], fails=[("run", "unknown", why)], cands=[], notes=[], bounds=[], encoded={}, contracts_used={},
                queries=0, solver_s=0, wall_s=0, steps=0, forks=0)
