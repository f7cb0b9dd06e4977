"""Bit-vector back end: terms -> z3, feasibility of path conditions, validity queries."""
import time
import z3
from . import terms as tm
from .terms import T

_CTX = z3.main_ctx()


class BV:
    def __init__(self, timeout=60000):
        self.memo = {}
        self.queries = 0
        self.time = 0.0
        self.timeout = timeout
        self.side = []          # range facts for variables
        self.feascache = {}
        self.inc = None
        self.incpc = []
        self.keep = {}

    def z(self, t, w=None):
        """z3 bit-vector of width w (booleans: width-1 vectors)"""
        if not isinstance(t, T):
            return z3.BitVecVal(t, w)
        memo = self.memo
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            todo = [y for y in x.a if isinstance(y, T) and y.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x.id] = self._z(x)
            self.keep[x.id] = x
            stack.pop()
        return memo[t.id]

    def b(self, t):
        """z3 Bool"""
        if not isinstance(t, T):
            return z3.BoolVal(bool(t))
        k = ("b", t.id)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._b(t)
        return r

    def _b(self, x):
        op, a = x.op, x.a
        if op in ("eq", "ult", "slt"):
            w = a[0].w if isinstance(a[0], T) else a[1].w
            p, q = self.z(a[0], w), self.z(a[1], w)
            return p == q if op == "eq" else z3.ULT(p, q) if op == "ult" else p < q
        if op == "xor" and not isinstance(a[1], T):
            return z3.Not(self.b(a[0]))
        if op == "xor":
            return z3.Xor(self.b(a[0]), self.b(a[1]))
        if op == "and":
            return z3.And(self.b(a[0]), self.b(a[1]))
        if op == "or":
            return z3.Or(self.b(a[0]), self.b(a[1]))
        if op == "ite":
            return z3.If(self.b(a[0]), self.b(a[1]), self.b(a[2]))
        return self.z(x) == 1

    def _z(self, x):
        op, w, a = x.op, x.w, x.a

        def g(i, ww=w):
            y = a[i]
            return self.memo[y.id] if isinstance(y, T) else z3.BitVecVal(y, ww)
        if op == "var":
            v = z3.BitVec(str(a[0]), w)
            if x.lo > 0:
                self.side.append(z3.UGE(v, x.lo))
            if x.hi < tm.mask(w):
                self.side.append(z3.ULE(v, x.hi))
            return v
        if w == 1 and op in ("eq", "ult", "slt", "xor", "and", "or", "ite"):
            # build through Bool for sharing
            return z3.If(self.b(x), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == "add":
            return g(0) + g(1)
        if op == "sub":
            return g(0) - g(1)
        if op == "mul":
            return g(0) * g(1)
        if op == "udiv":
            return z3.UDiv(g(0), g(1))
        if op == "urem":
            return z3.URem(g(0), g(1))
        if op == "and":
            return g(0) & g(1)
        if op == "or":
            return g(0) | g(1)
        if op == "xor":
            return g(0) ^ g(1)
        if op in ("shl", "lshr", "ashr"):
            k = a[1]
            if isinstance(k, T):
                kz = self.memo[k.id]
                if k.w < w:
                    kz = z3.ZeroExt(w - k.w, kz)
                elif k.w > w:
                    kz = z3.Extract(w - 1, 0, kz)
            else:
                kz = z3.BitVecVal(k, w)
            return g(0) << kz if op == "shl" else z3.LShR(g(0), kz) if op == "lshr" else g(0) >> kz
        if op == "zext":
            return z3.ZeroExt(w - a[0].w, g(0))
        if op == "sext":
            return z3.SignExt(w - a[0].w, g(0))
        if op == "trunc":
            return z3.Extract(w - 1, 0, g(0))
        if op == "ite":
            return z3.If(self.b(a[0]), g(1), g(2))
        if op == "bigge":
            n = len(a) - 2
            lw = a[-1]
            v = z3.Concat(*[g(i, lw) for i in range(n - 1, -1, -1)])
            return z3.If(z3.UGE(v, z3.BitVecVal(a[-2], lw * n)), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op in ("uaddo", "umulo", "saddo", "ssubo", "smulo"):
            ww = a[2]
            e = z3.SignExt if op[0] == "s" else z3.ZeroExt
            n = ww if "mul" in op else 1
            p, q = e(n, g(0, ww)), e(n, g(1, ww))
            r = p + q if "add" in op else p - q if "sub" in op else p * q
            tr = e(n, z3.Extract(ww - 1, 0, r))
            return z3.If(r != tr, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        raise NotImplementedError(op)

    # ------------------------------------------------------------- queries
    def check(self, conds, timeout=None):
        """conds: T/int booleans or z3 Bools -> ('sat', model) / ('unsat', None) / ('unknown', None)"""
        zs = []
        for c in conds:
            if isinstance(c, int):
                if not c:
                    return "unsat", None
            elif isinstance(c, T):
                zs.append(self.b(c))
            else:
                zs.append(c)
        s = z3.SolverFor("QF_BV")
        s.set("timeout", timeout or self.timeout)
        s.add(*self.side)
        s.add(*zs)
        t = time.time()
        r = str(s.check())
        self.queries += 1
        self.time += time.time() - t
        return r, (s.model() if r == "sat" else None)

    def valid(self, cond, pc=(), timeout=None):
        if isinstance(cond, int) and cond:
            return "unsat", None
        neg = tm.not_b(cond) if isinstance(cond, (T, int)) else z3.Not(cond)
        return self.check(list(pc) + [neg], timeout)

    def env(self, model):
        """model -> dict name -> int"""
        r = {}
        for d in model.decls():
            v = model[d]
            if z3.is_bv_value(v):
                r[d.name()] = v.as_long()
        return r

    def feas(self, pc):
        """feasibility of a path condition (incremental along a path)"""
        key = frozenset(c.id for c in pc)
        r = self.feascache.get(key)
        if r is not None:
            return r
        ids = set()
        for c in pc:
            ids.add(c.id)
            if c.op == "xor" and c.a[1] == 1 and c.a[0].id in ids:
                self.feascache[key] = "unsat"
                return "unsat"
        for c in pc:
            n = tm.not_b(c)
            if isinstance(n, T) and n.id in ids:
                self.feascache[key] = "unsat"
                return "unsat"
        if self.inc is None:
            self.inc = z3.SolverFor("QF_BV")
            self.inc.set("timeout", 10000)
            self.incside = 0
            self.incpc = []
        zs = [self.b(c) for c in pc]
        # common prefix
        k = 0
        while k < len(self.incpc) and k < len(pc) and self.incpc[k] is pc[k]:
            k += 1
        while len(self.incpc) > k:
            self.inc.pop()
            self.incpc.pop()
        for c, zc in list(zip(pc, zs))[k:]:
            self.inc.push()
            self.inc.add(zc)
            self.incpc.append(c)
        self.inc.push()
        self.inc.add(*self.side)
        t = time.time()
        r = str(self.inc.check())
        self.inc.pop()
        self.queries += 1
        self.time += time.time() - t
        self.feascache[key] = r
        return r
