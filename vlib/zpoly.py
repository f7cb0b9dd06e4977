"""Encoding of terms as integer polynomials over bounded integer variables.

Every term is translated to an exact integer polynomial (its unsigned value).  Wrap-around,
shifts and masks introduce quotient variables q = floor(P / 2^k), canonicalised so that the
same quotient gets the same variable.  Obligations (congruences modulo m, bounds, equalities)
are handed to z3 as linear integer arithmetic over the variables and opaque monomials; an
`unsat` answer is a proof for all values, since the opaque monomials only over-approximate.
"""
import time
import z3
from .terms import T, mask
from . import terms as tm


class NotLinear(Exception):
    pass


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


class ZCtx:
    def __init__(self):
        self.vars = []  # (lo, hi, kind, data)
        self.byname = {}
        self.qkey = {}
        self.memo = {}
        self.queries = 0
        self.time = 0.0
        self.timeout = 60000
        self.log = []
        self.cut = False

    # ---- variables
    def newvar(self, lo, hi, kind, data):
        self.vars.append((lo, hi, kind, data))
        return len(self.vars) - 1

    def v(self, i):
        return {(i,): 1}

    def inputvar(self, name, lo, hi):
        i = self.byname.get(name)
        if i is None:
            i = self.byname[name] = self.newvar(lo, hi, "in", name)
        return {(i,): 1}

    def isbool(self, i):
        return self.vars[i][0] >= 0 and self.vars[i][1] <= 1

    def mmul(self, m, n):
        r = sorted(m + n)
        out = []
        for x in r:
            if out and out[-1] == x and self.isbool(x):
                continue
            out.append(x)
        return tuple(out)

    def pmul(self, a, b):
        if len(a) * len(b) > 200000:
            raise NotLinear("product too large")
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.mmul(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def mint(self, m):
        l, h = 1, 1
        i = 0
        while i < len(m):
            a, b = self.vars[m[i]][0], self.vars[m[i]][1]
            e = 1
            while i + e < len(m) and m[i + e] == m[i]:
                e += 1
            i += e
            c = [a ** e, b ** e]
            x, y = min(c), max(c)
            if a < 0 < b and e % 2 == 0:
                x = 0
            cs = (l * x, l * y, h * x, h * y)
            l, h = min(cs), max(cs)
        return l, h

    def interval(self, p):
        l = h = 0
        for m, c in p.items():
            a, b = self.mint(m)
            if c > 0:
                l += c * a
                h += c * b
            else:
                l += c * b
                h += c * a
        return l, h

    def rinterval(self, p):
        """interval that recognises residues  c*(r - 2^k*floor(r/2^k))  inside p"""
        l, h = self.interval(p)
        L = H = 0
        ch = False
        for x in sorted((m[0] for m in p if len(m) == 1 and self.vars[m[0]][2] == "q"), reverse=True):
            a = p.get((x,), 0)
            if not a:
                continue
            r, k = self.vars[x][3]
            if a % (1 << k):
                continue
            c = -(a >> k)
            p2 = padd(padd(p, r, -c), {(x,): -a})
            if len(p2) < len(p):
                p = p2
                ch = True
                if c > 0:
                    H += c * ((1 << k) - 1)
                else:
                    L += c * ((1 << k) - 1)
        if ch:
            a, b = self.interval(p)
            l, h = max(l, a + L), min(h, b + H)
        return l, h

    def qinterval(self, p):
        """as rinterval, also lifting p = q + rest with q = floor(r/2^k) to r + 2^k*rest"""
        l, h = self.rinterval(p)
        for m, c in sorted(p.items(), reverse=True):
            if c == 1 and len(m) == 1 and self.vars[m[0]][2] == "q":
                r, k = self.vars[m[0]][3]
                rest = dict(p)
                del rest[m]
                a, b = self.rinterval(padd(r, rest, 1 << k))
                l, h = max(l, a >> k), min(h, b >> k)
                break
        return l, h

    def bools(self, p):
        s = set()
        for m in p:
            for x in m:
                if self.isbool(x):
                    s.add(x)
        return s

    def subst_bool(self, p, env):
        r = {}
        for m, c in p.items():
            k = []
            for x in m:
                if x in env:
                    if env[x] == 0:
                        k = None
                        break
                else:
                    k.append(x)
            if k is None:
                continue
            k = tuple(k)
            v = r.get(k, 0) + c
            if v:
                r[k] = v
            else:
                r.pop(k, None)
        return r

    def tight(self, p, nb=4):
        """interval with case analysis on up to nb boolean variables that occur in products"""
        l, h = self.interval(p)
        cnt = {}
        for m in p:
            if len(m) > 1:
                for x in m:
                    if self.isbool(x):
                        cnt[x] = cnt.get(x, 0) + 1
            elif m and self.isbool(m[0]):
                cnt.setdefault(m[0], 0)
        bs = sorted(cnt, key=lambda x: -cnt[x])[:nb]
        if not bs or not any(cnt.values()):
            return l, h
        L, H = None, None
        for k in range(1 << len(bs)):
            env = {b: (k >> i) & 1 for i, b in enumerate(bs)}
            a, b2 = self.interval(self.subst_bool(p, env))
            L = a if L is None else min(L, a)
            H = b2 if H is None else max(H, b2)
        return max(l, L), min(h, H)

    # ---- floor division by 2^k
    def floor(self, p, k):
        if k == 0:
            return p
        M = 1 << k
        out, r = {}, {}
        for m, c in p.items():
            q, s = divmod(c, M)
            if s * 2 > M or (s * 2 == M and c < 0):
                s -= M
                q += 1
            if q:
                out[m] = q
            if s:
                r[m] = s
        # keep the constant part canonical: remainder constant in [0, M)
        if r:
            f = self._floor(r, k)
            out = padd(out, f)
        return out

    def _floor(self, r, k):
        M = 1 << k
        l, h = self.rinterval(r)
        if l >> k == h >> k:
            return {(): l >> k} if l >> k else {}
        nonlin = any(len(m) > 1 for m in r)
        if nonlin:
            l, h = self.tight(r)
            if l >> k == h >> k:
                return {(): l >> k} if l >> k else {}
        # all boolean variables: multilinear interpolation
        vs = set(x for m in r for x in m)
        if len(vs) <= 3 and all(self.isbool(x) for x in vs):
            vs = sorted(vs)
            res = {}
            for kk in range(1 << len(vs)):
                env = {b: (kk >> i) & 1 for i, b in enumerate(vs)}
                c = self.subst_bool(r, env).get((), 0) >> k
                if c:
                    term = {(): c}
                    for b in vs:
                        term = self.pmul(term, {(b,): 1} if env[b] else {(): 1, (b,): -1})
                    res = padd(res, term)
            return res
        # nested quotient with coefficient one
        best = None
        for m, c in r.items():
            if c == 1 and len(m) == 1 and self.vars[m[0]][2] == "q":
                if best is None or m[0] > best:
                    best = m[0]
        if best is not None:
            L, a = self.vars[best][3]
            rest = dict(r)
            del rest[(best,)]
            comp = padd(L, pscale(rest, 1 << a))
            return self._floor2(comp, a + k, l, h, k)
        return self._floor2(r, k, l, h, k)

    def _floor2(self, r, k, l, h, k0):
        # drop a low part that cannot influence the quotient
        vals = set()
        for m, c in r.items():
            vals.add((c & -c).bit_length() - 1)
        for j in sorted(vals, reverse=True):
            if j == 0:
                break
            jj = min(j, k)
            H = {m: c >> jj for m, c in r.items() if c % (1 << jj) == 0}
            Lo = {m: c for m, c in r.items() if c % (1 << jj)}
            if not H:
                continue
            c0 = Lo.get((), 0)
            if Lo:
                # move the constant's high part to H
                hi_c = c0 >> jj
                if hi_c:
                    Lo = dict(Lo)
                    Lo[()] = c0 - (hi_c << jj)
                    if not Lo[()]:
                        del Lo[()]
                    H = padd(H, {(): hi_c})
            if Lo:
                a, b = self.interval(Lo)
                if not (0 <= a and b < (1 << jj)):
                    continue
            if jj == k:
                return H
            return self.floor(H, k - jj)
        if k != k0:
            return self._split(r, k, l, h, k0)
        return self._mkq(r, k, l >> k, h >> k)

    def _split(self, r, k, l, h, k0):
        M = 1 << k
        out, s = {}, {}
        for m, c in r.items():
            q, t = divmod(c, M)
            if t * 2 > M or (t * 2 == M and c < 0):
                t -= M
                q += 1
            if q:
                out[m] = q
            if t:
                s[m] = t
        if not s:
            return out
        a, b = self.rinterval(s)
        ql, qh = a >> k, b >> k
        if not out:
            ql, qh = max(ql, l >> k0), min(qh, h >> k0)
        if ql == qh:
            return padd(out, {(): ql} if ql else {})
        return padd(out, self._mkq(s, k, ql, qh))

    def _mkq(self, r, k, ql, qh):
        key = (frozenset(r.items()), k)
        i = self.qkey.get(key)
        if i is None:
            i = self.qkey[key] = self.newvar(ql, qh, "q", (r, k))
        else:
            o = self.vars[i]
            if ql > o[0] or qh < o[1]:
                self.vars[i] = (max(ql, o[0]), min(qh, o[1]), o[2], o[3])
        return {(i,): 1}

    # ---- terms
    def enc(self, t):
        if not isinstance(t, T):
            return {(): t} if t else {}
        memo = self.memo
        if t.id in memo:
            return memo[t.id]
        # encode in creation (= program) order, so that cut points see the program's data flow
        new, stack, seen = [], [t], {t.id}
        while stack:
            x = stack.pop()
            new.append(x)
            for y in x.a:
                if isinstance(y, T) and y.id not in memo and y.id not in seen:
                    seen.add(y.id)
                    stack.append(y)
        new.sort(key=lambda x: x.id)
        for x in new:
            memo[x.id] = self._enc(x)
        return memo[t.id]

    def g(self, x):
        if isinstance(x, T):
            return self.memo[x.id]
        return {(): x} if x else {}

    def cutmul(self, x):
        p = self.g(x)
        if not self.cut or len(p) <= 1:
            return p
        r = self.mkdef(p, tm.lo(x), tm.hi(x))
        self.memo[x.id] = r
        return r

    def mkdef(self, p, l, h):
        key = ("def", frozenset(p.items()))
        i = self.qkey.get(key)
        if i is None:
            a, b = self.qinterval(p)
            i = self.qkey[key] = self.newvar(max(l, a), min(h, b), "def", p)
        return {(i,): 1}

    def expand(self, p):
        """replace defined variables by their definitions"""
        while True:
            ds = [x for m in p for x in m if self.vars[x][2] == "def"]
            if not ds:
                return p
            x = max(ds)
            D = self.vars[x][3]
            out = {}
            for m, c in p.items():
                k = m.count(x)
                t = {tuple(y for y in m if y != x): c}
                for _ in range(k):
                    t = self.pmul(t, D)
                out = padd(out, t)
            p = out

    def wrap(self, p, w):
        return padd(p, self.floor(p, w), -(1 << w))

    def _enc(self, x):
        op, w, a = x.op, x.w, x.a
        if op == "var":
            h = getattr(self, "bind", {}).get(a[0])
            if h is not None:
                return h
            return self.inputvar(a[0], x.lo, x.hi)
        if op == "add":
            p = padd(self.g(a[0]), self.g(a[1]))
            if tm.hi(a[0]) + tm.hi(a[1]) <= mask(w):
                return p
            return self.wrap(p, w)
        if op == "sub":
            p = padd(self.g(a[0]), self.g(a[1]), -1)
            if tm.lo(a[0]) >= tm.hi(a[1]):
                return p
            return self.wrap(p, w)
        if op == "mul":
            p = self.pmul(self.cutmul(a[0]), self.cutmul(a[1]))
            if tm.hi(a[0]) * tm.hi(a[1]) <= mask(w):
                return p
            return self.wrap(p, w)
        if op == "shl" and not isinstance(a[1], T):
            p = pscale(self.g(a[0]), 1 << a[1])
            if tm.hi(a[0]) << a[1] <= mask(w):
                return p
            return self.wrap(p, w)
        if op == "lshr" and not isinstance(a[1], T):
            return self.floor(self.g(a[0]), a[1])
        if op == "ashr" and not isinstance(a[1], T):
            p = self.g(a[0])
            s = self.floor(p, w - 1)
            return padd(self.floor(padd(p, s, -(1 << w)), a[1]), s, 1 << w)
        if op == "zext":
            if self.cut and a[0].w == 32 and w == 64:
                return self.cutmul(a[0])
            return self.g(a[0])
        if op == "trunc":
            p = self.g(a[0])
            if tm.hi(a[0]) <= mask(w):
                return p
            return self.wrap(p, w)
        if op == "sext":
            p = self.g(a[0])
            return padd(p, self.floor(p, a[0].w - 1), (1 << w) - (1 << a[0].w))
        if op == "ult":
            ww = max(tm.hi(a[0]), tm.hi(a[1])).bit_length()
            return pscale(self.floor(padd(self.g(a[0]), self.g(a[1]), -1), max(ww, 1)), -1)
        if op == "slt":
            ww = a[0].w if isinstance(a[0], T) else a[1].w
            s = []
            for y in a:
                p = self.g(y)
                s.append(padd(p, self.floor(p, ww - 1), -(1 << ww)))
            return pscale(self.floor(padd(s[0], s[1], -1), ww), -1)
        if op == "ite":
            c, y, z = self.g(a[0]), self.g(a[1]), self.g(a[2])
            return padd(z, self.pmul(c, padd(y, z, -1)))
        if op == "bigge":
            lw, N = a[-1], a[-2]
            p, tot = {}, lw * (len(a) - 2)
            for i, y in enumerate(a[:-2]):
                p = padd(p, self.cutmul(y), 1 << (lw * i))
            return self.floor(padd(p, {(): (1 << tot) - N}), tot)
        if op == "uaddo":
            return self.floor(padd(self.g(a[0]), self.g(a[1])), a[2])
        if op == "and":
            return self._and(w, a[0], a[1])
        if op == "or":
            pa, pb = self.g(a[0]), self.g(a[1])
            return padd(padd(pa, pb), self._and(w, a[0], a[1]), -1)
        if op == "xor":
            if not isinstance(a[1], T) and a[1] == mask(w):
                return padd({(): a[1]}, self.g(a[0]), -1)
            pa, pb = self.g(a[0]), self.g(a[1])
            return padd(padd(pa, pb), self._and(w, a[0], a[1]), -2)
        if op == "eq":
            d = padd(self.g(a[0]), self.g(a[1]), -1)
            return self._eqvar(d)
        raise NotLinear(op)

    def _eqvar(self, d):
        l, h = self.interval(d)
        if not d:
            return {(): 1}
        if l > 0 or h < 0:
            return {}
        # a difference with values in {0,1} or {-1,0}
        if l == 0 and h == 1:
            return padd({(): 1}, d, -1)
        if l == -1 and h == 0:
            return padd({(): 1}, d)
        # normal form: make the first coefficient positive
        fk = min(d)
        if d[fk] < 0:
            d = pscale(d, -1)
        key = ("eq", frozenset(d.items()))
        i = self.qkey.get(key)
        if i is None:
            i = self.qkey[key] = self.newvar(0, 1, "eq", d)
        return {(i,): 1}

    def _maskform(self, p, w):
        """p = (2^k-1)*2^s*B with B in {0,1}?"""
        if not p:
            return None
        g = 0
        import math
        for c in p.values():
            g = math.gcd(g, c)
        l, h = self.interval(p)
        if len(p) > 1:
            l, h = self.tight(p)
        if l < 0 or h != g:
            return None
        s = (g & -g).bit_length() - 1
        q = g >> s
        if q & (q + 1):
            return None
        return g, {m: c // g for m, c in p.items()}

    def _and(self, w, x, y):
        px, py = self.g(x), self.g(y)
        if w == 1 or (tm.hi(x) <= 1 and tm.hi(y) <= 1):
            return self.pmul(px, py)
        if not isinstance(y, T):
            return self._andc(px, y)
        if not isinstance(x, T):
            return self._andc(py, x)
        # alignment: one is a multiple of 2^k, the other below 2^k
        for p, q in ((px, py), (py, px)):
            v = min(((c & -c).bit_length() - 1 for c in p.values()), default=0)
            if v and tm.hi(x if q is px else y) < (1 << v):
                return {}
        for p, q in ((px, py), (py, px)):
            mf = self._maskform(p, w)
            if mf:
                return self.pmul(mf[1], self._andc(q, mf[0]))
        if len(px) * len(py) <= 400 and not self.pmul(px, py):
            return {}
        if px == py:
            return px
        raise NotLinear("and")

    def _andc(self, p, c):
        r = {}
        i = 0
        while c >> i:
            if (c >> i) & 1:
                j = i
                while (c >> j) & 1:
                    j += 1
                part = padd(self.floor(p, i), self.floor(p, j), -(1 << (j - i)))
                r = padd(r, part, 1 << i)
                i = j
            else:
                i += 1
        return r

    # ---- z3
    def cone(self, polys, depth=None):
        """variables and monomials the polynomials depend on.  With `depth`, definitions are
        followed that many levels only and quotients met on the way contribute no floor facts
        (a sound weakening that keeps the query small)"""
        level = {}
        order = []
        from collections import deque
        work = deque((x, 0) for p in polys for m in p for x in m)
        ms = set(m for p in polys for m in p)
        facts = []
        while work:
            x, d = work.popleft()
            if x in level:
                continue
            level[x] = d
            order.append(x)
            lo, hi, kind, data = self.vars[x]
            if depth is not None and d > depth:
                continue
            if kind in ("q", "eq"):
                if depth is not None and d > 0:
                    continue
                body = data[0] if kind == "q" else data
                nd = d
            elif kind == "def":
                body = data
                nd = d + 1
            else:
                continue
            facts.append(x)
            for m in body:
                ms.add(m)
                for y in m:
                    # definitions are followed after everything at this level
                    (work.append if nd > d else work.appendleft)((y, nd))
        ms.discard(())
        ms |= {(x,) for x in order}
        return order, ms, facts

    def z3problem(self, polys, depth=None):
        vs, ms, facts = self.cone(polys, depth)
        zv = {}
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", self.timeout)
        for m in ms:
            zv[m] = z3.Int("m_" + "_".join(map(str, m)))
        cons = []
        for m in ms:
            l, h = self.mint(m)
            cons += [zv[m] >= l, zv[m] <= h]
            if len(m) == 2:
                for b, o in ((m[0], m[1]), (m[1], m[0])):
                    if self.isbool(b) and (b,) in zv and (o,) in zv:
                        lo, hi = self.vars[o][0], self.vars[o][1]
                        zb, zo = zv[(b,)], zv[(o,)]
                        cons += [zv[m] <= hi * zb, zv[m] >= lo * zb, zv[m] <= zo - lo * (1 - zb), zv[m] >= zo - hi * (1 - zb)]
                        break
        self.zv = zv

        def lin(p):
            return z3.Sum([c * zv[m] if m else z3.IntVal(c) for m, c in p.items()]) if p else z3.IntVal(0)
        for x in facts:
            lo, hi, kind, data = self.vars[x]
            if kind == "q":
                r, k = data
                e = lin(r)
                cons += [e >= (1 << k) * zv[(x,)], e < (1 << k) * (zv[(x,)] + 1)]
            elif kind == "def":
                cons.append(zv[(x,)] == lin(data))
            else:
                cons.append((zv[(x,)] == 1) == (lin(data) == 0))
        s.add(cons)
        return s, lin

    def check(self, s):
        t = time.time()
        r = s.check()
        self.queries += 1
        self.time += time.time() - t
        return str(r)

    def reduce(self, p, m):
        red = {}
        for k, c in p.items():
            c %= m
            if c * 2 > m:
                c -= m
            if c:
                red[k] = c
        return red

    DEPTHS = ((0, 3000), (1, 20000), (2, 20000), (None, 60000))

    def prove_congruent(self, p, m, depths=None):
        """is the polynomial p a multiple of m for all values?  unsat = yes"""
        cands = [self.reduce(self.expand(p), m)]
        if self.reduce(p, m) != cands[0]:
            cands.append(self.reduce(p, m))
        cands.append(p)
        r, s = "unknown", None
        for depth, tmo in (depths or self.DEPTHS):
            for red in cands:
                s, lin = self.z3problem([red], depth)
                s.set("timeout", min(tmo, self.timeout))
                K, e = z3.Int("K"), z3.Int("e")
                s.add(lin(red) == m * K + e, e >= 1, e < m)
                r = self.check(s)
                if r == "unsat":
                    return r, cands[0], s
        return r, cands[0], s

    def prove(self, polys, mk, depths=None):
        """mk(lin) -> z3 formula that must hold for all values"""
        r, s = "unknown", None
        for depth, tmo in (depths or self.DEPTHS):
            s, lin = self.z3problem(list(polys), depth)
            s.set("timeout", min(tmo, self.timeout))
            s.add(z3.Not(mk(lin)))
            r = self.check(s)
            if r == "unsat":
                return r, s
        return r, s
