"""Secret independence of control flow and addresses.

A `CT` attached to an engine looks at every branch, address and forking library call the symbolic
execution meets.  One whose condition or address is a term over secret variables is recorded,
unless it is a selection: a branch whose arms only compute on values at hand (no loads or stores
through pointers, no indexing, no calls) and meet again with one state.  The recorded ones are
decided by the solver: is there a pair of secrets, equal in everything public, for which the
condition differs?"""
import json
import time
import z3
from . import terms as tm
from .terms import T
from .execu import Abstract, Outcomes
from .mir import Ptr, E, Unsupported

SECRET = "~"
# library calls whose time depends on the contents they are given
VARTIME = ("PartialEq", "PartialOrd", "Ord>", "memcmp", "compare_bytes", "SliceContains", "::contains", "starts_with", "ends_with", "::binary_search", "::position")
SAFE_CALL = ("wrapping_", "overflowing_", "subtle::Choice", "unwrap_u8", "black_box", "core::num::", "std::num::", "convert::From<bool>", "convert::num::")


def pure_place(p):
    return not any(q == "Deref" or (isinstance(q, dict) and ("Index" in q)) for q in p.get("projection", []))


def wide(fn, types, st):
    """an assignment of more than a machine word or two: a conditional copy, not a selection"""
    if isinstance(st, dict) and "Assign" in st:
        a = st["Assign"]
        pl = a[0] if isinstance(a, (list, tuple)) else a["place"]
        ty = fn.raw["locals"][pl["local"]]
        for q in pl.get("projection", []):
            if isinstance(q, dict) and "Field" in q:
                ty = q["Field"][1]
        t = types.get(ty)
        return bool(t and t.get("size", 0) > 16)
    return False


def pure(x):
    """no load or store through a pointer, no indexing, anywhere in a statement"""
    if isinstance(x, dict):
        if "local" in x and "projection" in x:
            return pure_place(x)
        for k, v in x.items():
            if k in ("Ref", "AddressOf", "RawPtr"):
                continue            # computes an address only
            if not pure(v):
                return False
        return True
    if isinstance(x, (list, tuple)):
        return all(pure(y) for y in x)
    return True


class CT:
    def __init__(self, secret=None, abstract=None, ok=None):
        self.secret = secret or (lambda n: n.startswith(SECRET))
        self.abstract = abstract        # abstract value -> bool
        self.ok = ok                    # override name -> may be given secrets
        self.memo = {}
        self.keep = {}
        self.leaks = []                 # (pc, term, where, kind)
        self.seen = set()
        self.selections = 0
        self.branches = 0
        self.shape = {}
        self.needed = {}                # overrides given secrets that are not known to be constant time

    # -- secrecy
    def sec(self, t):
        if not isinstance(t, T):
            return False
        memo = self.memo
        r = memo.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if x.op == "var":
                memo[x.id] = bool(self.secret(x.a[0]))
                self.keep[x.id] = x
                stack.pop()
                continue
            sub = [y for y in x.a if isinstance(y, T)]
            todo = [y for y in sub if y.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x.id] = any(memo[y.id] for y in sub)
            self.keep[x.id] = x
            stack.pop()
        return memo[t.id]

    def deep(self, eng, st, v, depth=6):
        if isinstance(v, T):
            return self.sec(v)
        if isinstance(v, tuple):
            return any(self.deep(eng, st, x, depth) for x in v if not isinstance(x, int))
        if isinstance(v, E):
            return self.sec(v.d) or any(self.deep(eng, st, x, depth) for f in v.f.values() for x in f)
        if isinstance(v, Ptr):
            if depth <= 0:
                return False
            try:
                return self.deep(eng, st, eng.load(st, v), depth - 1)
            except Exception:
                return False
        if isinstance(v, Abstract):
            return bool(self.abstract and self.abstract(v))
        return False

    # -- hooks of the engine
    def selection(self, fn, blk):
        k = (id(fn), blk)
        r = self.shape.get(k)
        if r is None:
            r = self.shape[k] = self._selection(fn, blk)
        return r

    def _selection(self, fn, blk):
        ip = fn.ipdom.get(blk)
        if ip is None or ip >= len(fn.blocks):
            return False
        raw = fn.raw["blocks"]
        todo, seen = [b for b in self._succ(raw[blk]["t"])], set()
        while todo:
            b = todo.pop()
            if b == ip or b in seen:
                continue
            if b == blk:
                return False
            seen.add(b)
            if len(seen) > 12:
                return False
            if not pure(raw[b]["s"]) or any(wide(fn, self.types, x) for x in raw[b]["s"]):
                return False
            t = raw[b]["t"]
            k = t if isinstance(t, str) else next(iter(t))
            if k == "Unreachable":
                continue
            if k in ("Goto", "SwitchInt"):
                pass
            elif k == "Assert":
                m = t["Assert"]["msg"]
                if (m if isinstance(m, str) else next(iter(m))) not in ("Overflow", "OverflowNeg"):
                    return False
            elif k == "Call":
                c = t["Call"].get("callee")
                if c is None or not any(s in c["name"] for s in SAFE_CALL):
                    return False
            else:
                return False
            todo += self._succ(t)
        return True

    def _succ(self, t):
        k = t if isinstance(t, str) else next(iter(t))
        if k == "SwitchInt":
            tg = t[k]["targets"]
            return [b for _, b in tg["branches"]] + ([tg["otherwise"]] if tg["otherwise"] is not None else [])
        if k in ("Goto", "Assert", "Drop", "Call"):
            x = t[k].get("target")
            return [] if x is None else [x]
        return []

    def switch(self, eng, st, fn, blk, v, line):
        """True if the branch on v is a selection"""
        self.branches += 1
        self.types = eng.prog.types
        if not self.sec(v):
            return False
        if self.selection(fn, blk):
            self.selections += 1
            return True
        self.record(st.pc, v, "%s:%s" % (fn.name, line), "branch")
        return False

    def place(self, eng, st, pl):
        a, p, mode, off, meta, view = pl
        if isinstance(off, T) and self.sec(off):
            self.record(st.pc, off, eng.stack[-1] if eng.stack else "?", "address")
        for q in p:
            if isinstance(q, T) and self.sec(q):
                self.record(st.pc, q, eng.stack[-1] if eng.stack else "?", "address")

    def override(self, eng, st, pc0, name, args, r, ov):
        where = "%s in %s" % (name, eng.stack[-1] if eng.stack else "?")
        if self.ok is not None:
            o = self.ok(name)
            if o is True:
                if isinstance(r, Outcomes) and len(r) > 1 and any(self.sec(c) for s, _ in r for c in s.pc[len(pc0):] if isinstance(c, T)):
                    raise Unsupported("%s forks on a secret" % name)
                return
            if o is False:
                if any(self.deep(eng, st, x) for x in args):
                    self.needed[name] = self.needed.get(name, 0) + 1
                return
        if isinstance(r, Outcomes) and len(r) > 1:
            for s, _ in r:
                c = tm.conj(list(s.pc[len(pc0):]))
                if isinstance(c, T) and self.sec(c):
                    self.record(pc0, c, where, "library call")
        if any(v in name for v in VARTIME) and "subtle" not in name:
            rv = r if not isinstance(r, Outcomes) else None
            if len(args) == 2 and all(self.small(eng, st, x) for x in args):
                return
            if any(self.deep(eng, st, x) for x in args):
                t = rv if isinstance(rv, T) else rv.d if isinstance(rv, E) and isinstance(rv.d, T) else None
                if t is not None and self.sec(t):
                    self.record(st.pc, t, where, "comparison")

    def small(self, eng, st, v):
        for _ in range(3):
            if isinstance(v, Ptr):
                try:
                    v = eng.load(st, v)
                except Exception:
                    return False
        return isinstance(v, (T, int)) or (isinstance(v, tuple) and len(v) <= 1)

    def record(self, pc, t, where, kind):
        k = (where, kind, t.id)
        if k in self.seen or len(self.leaks) > 400:
            return
        self.seen.add(k)
        self.leaks.append((pc, t, where, kind))


def variables(t, memo):
    out = []
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "var":
            out.append(x)
        stack.extend(x.a)
    return out


def twin(ct, ts):
    """{variable id: its copy} for the secret variables of the terms"""
    m = {}
    for t in ts:
        for v in variables(t, None):
            if v.id not in m and ct.secret(v.a[0]):
                m[v.id] = tm.var(v.a[0] + "'", v.w, v.lo, v.hi)
    return m


def decide(cx, name, eng, B, mk=None, pre=(), pre2=None, more=None, native=False):
    """one obligation per recorded branch, address or call"""
    ct = eng.ct
    groups = {}
    for pc, t, where, kind in ct.leaks:
        groups.setdefault((where, kind), []).append((pc, t))
    cx.true("%s: %d branches met, %d of them selections between computed values" % (name, ct.branches, ct.selections), True)
    if len(ct.leaks) > 400:
        cx.result("%s: all branches and addresses on secrets recorded" % name, "unknown")
    left = time.time() + 150
    for (where, kind), l in groups.items():
        bad = 0
        for pc, t in l:
            nm = "%s: the %s in %s is the same for every secret" % (name, kind, where)
            if time.time() > left:
                cx.result(nm, "unknown", detail="out of time")
                break
            m = twin(ct, [t] + list(pc))
            t2 = tm.subst(t, m)
            pc2 = [tm.subst(c, m) for c in pc]
            w = t.w
            pp = list(pre) + list(pc) + pc2 + (list(pre2(m)) if pre2 else [])
            mk2 = (lambda env: list(more(where)) + list(mk(env))) if more and mk else mk
            r = cx.valid(nm, B, B.z(t, w) == B.z(t2, w), pp, mk2, timeout=20000, native=native)
            bad += not r
            if bad >= 3:
                break
    for nm, k in ct.needed.items():
        cx.true("%s: %s is not given secrets" % (name, nm), False, cands=(list(more(nm)) if more else []) + (mk({}) if mk else []))
