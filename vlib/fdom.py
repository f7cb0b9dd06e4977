"""Field elements as polynomials modulo p: the domain in which the curve formulas are executed.

A field element is a polynomial over GF(p) in named variables.  Monomials are sorted tuples of
(variable, exponent); exponents are unbounded and may be negative for variables that are known
not to be zero.  The overrides below replace the limb-level Field operations by their contracts,
each of which is an L1 lemma on the real limb code; the preconditions of those lemmas (operand
magnitudes, normalisation) are checked at every call and recorded.
"""
import time
import z3
from . import terms as tm, mir
from .execu import Abstract, Table, Outcomes
from .mir import Unsupported, UNDEF
from .ref import P

FN = "libsecp256k1::curve::Field::"
FT = "libsecp256k1::curve::Field"


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for v, e in n:
        x = d.get(v, 0) + e
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def pmul(a, b, M=P):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = (r.get(k, 0) + c * d) % M
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def padd(a, b, k=1, M=P):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + k * c) % M
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def const(c, M=P):
    return {(): c % M} if c % M else {}


def var(v):
    return {((v, 1),): 1}


def ppow(a, n, M=P):
    r = const(1)
    while n:
        if n & 1:
            r = pmul(r, a, M)
        a = pmul(a, a, M)
        n >>= 1
    return r


def psub(a, b, M=P):
    return padd(a, b, -1, M)


def pstr(p, n=6):
    out = []
    for m, c in list(p.items())[:n]:
        out.append("%s%s" % (c if c < P // 2 else c - P, "".join("*%s^%s" % x for x in m)))
    return " + ".join(out) + (" + ..." if len(p) > n else "") or "0"


class FE(Abstract):
    """an abstract field element"""
    __slots__ = ("p", "mag", "norm")

    def __init__(self, p, mag=1, norm=0):
        self.p, self.mag, self.norm = p, mag, norm

    def field(self, eng, i):
        if i == 1:
            return self.mag
        if i == 2:
            return self.norm
        raise Unsupported("limbs of an abstract field element")

    def same(self, o):
        return isinstance(o, FE) and self.p == o.p and self.mag == o.mag and self.norm == o.norm

    def __eq__(self, o):
        return isinstance(o, FE) and self.same(o)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "FE(%s; m=%s n=%s)" % (pstr(self.p), self.mag, self.norm)


class FS(Abstract):
    """an abstract storage element"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def same(self, o):
        return isinstance(o, FS) and o.p == self.p

    __eq__ = same

    def __hash__(self):
        return id(self)


class Dom:
    """relations, non-zero facts, and the override table"""

    def __init__(self, M=P):
        self.M = M
        self.rules = {}        # variable -> (k, polynomial): v^k = polynomial
        self.nonzero = []      # polynomials known not to be zero
        self.units = set()     # variables known not to be zero
        self.bad = []          # violated preconditions
        self.zt = {}           # canonical polynomial -> term
        self.ztp = {}          # term id -> polynomial
        self.sqp = {}          # term id -> polynomial tested for being a square
        self.roots = {}        # variable -> polynomial it is the (square) root of
        self.opaque = {}       # polynomial -> variable standing for its inverse / root ...
        self.queries = 0
        self.time = 0.0
        self.forced = []       # (polynomial, bool): decisions taken by a case split
        self.n = 0
        self.tab = table(self) if M == P else None

    # ---------------------------------------------------------------- algebra
    def reduce(self, p):
        for v, (k, q) in self.rules.items():
            while True:
                hit = None
                for m in p:
                    for w, e in m:
                        if w == v and e >= k:
                            hit = True
                            break
                    if hit:
                        break
                if not hit:
                    break
                r = {}
                for m, c in p.items():
                    e = 0
                    for w, x in m:
                        if w == v:
                            e = x
                    if e >= k:
                        rest = tuple((w, x) for w, x in m if w != v)
                        if e % k:
                            rest = mmul(rest, ((v, e % k),))
                        t = pmul({rest: c}, ppow(q, e // k, self.M), self.M)
                        r = padd(r, t, 1, self.M)
                    else:
                        r = padd(r, {m: c}, 1, self.M)
                p = r
        return p

    def strip(self, p):
        """divide by the common monomial of known units"""
        if not p:
            return p
        mins = None
        for m in p:
            d = dict(m)
            if mins is None:
                mins = dict(d)
            else:
                for v in set(mins) | set(d):
                    mins[v] = min(mins.get(v, 0), d.get(v, 0))
        f = tuple(sorted((v, -e) for v, e in mins.items() if e and v in self.units))
        return pmul(p, {f: 1}, self.M) if f else p

    def divide(self, p, q):
        """exact quotient p / q or None (lexicographic leading terms)"""
        vs = sorted({v for m in p for v, _ in m} | {v for m in q for v, _ in m})

        def key(m):
            d = dict(m)
            return tuple(d.get(v, 0) for v in vs)
        lq = max(q, key=key)
        kq = key(lq)
        iq = pow(q[lq], -1, self.M)
        r = {}
        n = 0
        while p:
            n += 1
            if n > 5000:
                return None
            lp = max(p, key=key)
            kp = key(lp)
            d = tuple(a - b for a, b in zip(kp, kq))
            if any(x < 0 for x in d):
                return None
            m = tuple((v, e) for v, e in zip(vs, d) if e)
            c = p[lp] * iq % self.M
            r[m] = c
            p = padd(p, pmul({m: c}, q, self.M), -1, self.M)
        return r

    def decide(self, p):
        """True: zero for all admitted values; False: never zero; None: neither shown"""
        p = self.strip(self.reduce(p))
        if not p:
            return True
        if len(p) == 1:
            m = next(iter(p))
            if all(v in self.units for v, _ in m):
                return False
        for f, val in self.forced:
            for s in (1, -1):
                g = self.strip(self.reduce(f))
                if self.proportional(p, g):
                    return val
        q = p
        again = True
        while again:
            again = False
            for f in self.nonzero:
                d = self.divide(q, f)
                if d is not None:
                    q = self.strip(d)
                    again = True
            if len(q) == 1 and all(v in self.units for v, _ in next(iter(q))):
                return False
        return None

    def proportional(self, p, q):
        if len(p) != len(q) or not p:
            return False
        m = next(iter(p))
        if m not in q:
            return False
        k = p[m] * pow(q[m], -1, self.M) % self.M
        return all(n in q and q[n] * k % self.M == c for n, c in p.items())

    def zero_test(self, p):
        """bool term: p == 0"""
        r = self.decide(p)
        if r is not None:
            self.confirm(p, r)
            return int(r)
        p = self.strip(self.reduce(p))
        lead = min(p)
        k = pow(p[lead], -1, self.M)
        key = tuple(sorted((m, c * k % self.M) for m, c in p.items()))
        t = self.zt.get(key)
        if t is None:
            t = self.zt[key] = tm.var("zero%d" % len(self.zt), 1)
            self.ztp[t.id] = p
        return t

    def confirm(self, p, want_zero):
        """the solver's verdict on a polynomial that must vanish"""
        if want_zero:
            self.zero(p)

    def zero(self, p):
        """solver query: is the reduced polynomial non-zero modulo p for some value of its
        monomials (taken as free values in [0, p))?  unsat: it vanishes identically"""
        p = self.reduce(p)
        s = z3.Solver()
        s.set("timeout", 20000)
        k = z3.Int("k")
        r = z3.Int("r")
        e = z3.IntVal(0)
        for i, (m, c) in enumerate(p.items()):
            x = z3.Int("m%d" % i)
            s.add(x >= 0, x < self.M)
            e = e + c * x
        s.add(e == self.M * k + r, r > 0, r < self.M)
        t = time.time()
        a = str(s.check())
        self.queries += 1
        self.time += time.time() - t
        return a

    # ----------------------------------------------------------------- values
    def lift(self, v):
        if isinstance(v, FE):
            return v
        if isinstance(v, tuple) and len(v) == 3 and isinstance(v[0], tuple) and len(v[0]) == 10 and all(isinstance(x, int) for x in v[0]):
            val = sum(x << (26 * i) for i, x in enumerate(v[0]))
            return FE(const(val), v[1] if isinstance(v[1], int) else 1, v[2] if isinstance(v[2], int) else 0)
        raise Unsupported("abstract field operation on %r" % (type(v),))

    def v(self, name, mag=1, norm=0, unit=False):
        if unit:
            self.units.add(name)
        return FE(var(name), mag, norm)

    def pre(self, cond, what):
        if not cond:
            self.bad.append(what)

    def fresh(self, pre):
        self.n += 1
        return "%s%d" % (pre, self.n)

    def inverse(self, p):
        """polynomial for 1/p (p known not to be zero), or 0 for 0"""
        p = self.reduce(p)
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            if all(v in self.units for v, _ in m):
                return {tuple((v, -e) for v, e in m): pow(c, -1, self.M)}
        if self.decide(p):
            return {}
        key = ("inv", tuple(sorted(p.items())))
        v = self.opaque.get(key)
        if v is None:
            v = self.opaque[key] = self.fresh("inv")
        return var(v)

    def sqclass(self, p):
        """canonical form of p up to squares of known units"""
        p = self.reduce(p)
        if p:
            mins = None
            for m in p:
                d = dict(m)
                mins = dict(d) if mins is None else {v: min(mins.get(v, 0), d.get(v, 0)) for v in set(mins) | set(d)}
            f = tuple(sorted((v, -(e - e % 2)) for v, e in mins.items() if e - e % 2 and v in self.units))
            p = self.reduce(pmul(p, {f: 1})) if f else p
        return p

    def square_test(self, p):
        """bool term: p is a square (zero included)"""
        p = self.sqclass(p)
        if not p:
            return 1
        if len(p) == 1 and () in p:
            return int(pow(p[()], (P - 1) // 2, P) == 1)
        key = ("sq", tuple(sorted(p.items())))
        t = self.opaque.get(key)
        if t is None:
            t = self.opaque[key] = tm.var("square%d" % len(self.opaque), 1)
            self.sqp[t.id] = p
        return t

    def pre_ok(self, cx, name="preconditions of the field contracts"):
        cx.true(name, not self.bad, detail=str(self.bad[:4]))
        cx.extraq += self.queries
        cx.extrat += self.time
        self.queries = 0
        self.time = 0.0


def table(d):
    t = Table()

    def L(eng, st, p):
        return d.lift(eng.load(st, p))

    def is_fe(eng, st, p):
        return isinstance(eng.load(st, p), FE)

    def chk(name, *fs):
        for f in fs:
            d.pre(f.mag <= 8, "%s: magnitude %s > 8" % (name, f.mag))

    @t.on(FN + "mul_in_place")
    def mul(eng, st, a, cal):
        x, y = L(eng, st, a[1]), L(eng, st, a[2])
        chk("mul", x, y)
        eng.store(st, a[0], FE(d.reduce(pmul(x.p, y.p)), 1, 0))
        return ()

    @t.on(FN + "sqr_in_place")
    def sqr(eng, st, a, cal):
        x = L(eng, st, a[1])
        chk("sqr", x)
        eng.store(st, a[0], FE(d.reduce(pmul(x.p, x.p)), 1, 0))
        return ()

    @t.on("<%s as std::ops::AddAssign<&%s>>::add_assign" % (FT, FT))
    def add(eng, st, a, cal):
        x, y = L(eng, st, a[0]), L(eng, st, a[1])
        d.pre(x.mag + y.mag <= 32, "add: magnitude %d" % (x.mag + y.mag))
        eng.store(st, a[0], FE(padd(x.p, y.p), x.mag + y.mag, 0))
        return ()

    @t.on("<%s as std::ops::AddAssign>::add_assign" % FT)
    def add2(eng, st, a, cal):
        x, y = L(eng, st, a[0]), d.lift(a[1])
        d.pre(x.mag + y.mag <= 32, "add: magnitude %d" % (x.mag + y.mag))
        eng.store(st, a[0], FE(padd(x.p, y.p), x.mag + y.mag, 0))
        return ()

    def negv(x, m):
        if not isinstance(m, int):
            raise Unsupported("symbolic magnitude")
        d.pre(x.mag <= m <= 31, "neg: magnitude %s declared %s" % (x.mag, m))
        return FE(padd({}, x.p, -1), m + 1, 0)

    @t.on(FN + "neg_in_place")
    def negi(eng, st, a, cal):
        eng.store(st, a[0], negv(L(eng, st, a[1]), a[2]))
        return ()

    @t.on(FN + "neg")
    def neg(eng, st, a, cal):
        return negv(L(eng, st, a[0]), a[1])

    @t.on(FN + "mul_int")
    def muli(eng, st, a, cal):
        x = L(eng, st, a[0])
        if not isinstance(a[1], int):
            raise Unsupported("symbolic factor")
        d.pre(x.mag * a[1] <= 32, "mul_int: magnitude %d" % (x.mag * a[1]))
        eng.store(st, a[0], FE(pmul(x.p, const(a[1])), x.mag * a[1], 0))
        return ()

    @t.on(FN + "normalize", FN + "normalize_var")
    def norm(eng, st, a, cal):
        x = L(eng, st, a[0])
        d.pre(x.mag <= 31, "normalize: magnitude %d" % x.mag)
        eng.store(st, a[0], FE(x.p, 1, 1))
        return ()

    @t.on(FN + "normalize_weak")
    def normw(eng, st, a, cal):
        x = L(eng, st, a[0])
        d.pre(x.mag <= 31, "normalize_weak: magnitude %d" % x.mag)
        eng.store(st, a[0], FE(x.p, 1, x.norm))
        return ()

    @t.on(FN + "normalizes_to_zero", FN + "normalizes_to_zero_var")
    def ntz(eng, st, a, cal):
        x = L(eng, st, a[0])
        d.pre(x.mag <= 31, "normalizes_to_zero: magnitude %d" % x.mag)
        return d.zero_test(x.p)

    @t.on(FN + "is_zero")
    def isz(eng, st, a, cal):
        x = L(eng, st, a[0])
        d.pre(x.norm == 1 or x.mag == 0, "is_zero of an element that is not normalised")
        return d.zero_test(x.p)

    @t.on(FN + "is_odd")
    def isodd(eng, st, a, cal):
        x = L(eng, st, a[0])
        d.pre(x.norm == 1, "is_odd of an element that is not normalised")
        p = d.reduce(x.p)
        if all(m == () for m in p):
            return p.get((), 0) & 1
        return d.parity(p)

    @t.on(FN + "cmov")
    def cmov(eng, st, a, cal):
        x, y = L(eng, st, a[0]), L(eng, st, a[1])
        f = a[2]
        if isinstance(f, int):
            if f:
                eng.store(st, a[0], y)
            return ()
        out = []
        for v, c in ((y, f), (x, tm.not_b(f))):
            s = st.fork()
            s.assume(c)
            eng.store(s, a[0], v)
            out.append((s, ()))
        return Outcomes(out)

    @t.on(FN + "inv", FN + "inv_var")
    def inv(eng, st, a, cal):
        x = L(eng, st, a[0])
        d.pre(x.mag <= 8, "inv: magnitude %s" % x.mag)
        return FE(d.inverse(x.p), 1, 0)

    @t.on(FN + "sqrt")
    def sqrt(eng, st, a, cal):
        """(root, is-square flag); the root of a square is itself a square (lemma F.sqrt)"""
        x = L(eng, st, a[0])
        d.pre(x.mag <= 8, "sqrt: magnitude %s" % x.mag)
        p = d.reduce(x.p)
        t = d.square_test(p)
        if not p:
            return (FE({}, 1, 0), 1)
        out = []
        for val in (1, 0):
            if isinstance(t, int) and t != val:
                continue
            s = st.fork()
            if not isinstance(t, int):
                s.assume(t if val else tm.not_b(t))
            key = ("root", val, tuple(sorted(p.items())))
            v = d.opaque.get(key)
            if v is None:
                v = d.opaque[key] = d.fresh("root")
                if val:
                    d.rules[v] = (2, p)
                    d.roots[v] = p
                    if d.decide(p) is False:
                        d.units.add(v)
            out.append((s, (FE(var(v), 1, 0), val)))
        return Outcomes(out)

    @t.on(FN + "is_quad_var")
    def isquad(eng, st, a, cal):
        x = L(eng, st, a[0])
        d.pre(x.mag <= 8, "is_quad_var: magnitude %s" % x.mag)
        return d.square_test(x.p)

    @t.on("/^<libsecp256k1::curve::Field as std::convert::Into<libsecp256k1::curve::FieldStorage>>::into$",
          "/^<libsecp256k1::curve::FieldStorage as std::convert::From<libsecp256k1::curve::Field>>::from$")
    def store(eng, st, a, cal):
        x = d.lift(a[0])
        d.pre(x.norm == 1, "storing an element that is not normalised")
        return FS(x.p)

    @t.on("/^<libsecp256k1::curve::FieldStorage as std::convert::Into<libsecp256k1::curve::Field>>::into$",
          "/^<libsecp256k1::curve::Field as std::convert::From<libsecp256k1::curve::FieldStorage>>::from$")
    def load(eng, st, a, cal):
        if isinstance(a[0], FS):
            return FE(a[0].p, 1, 1)
        return NotImplemented

    @t.on(FN + "set_int")
    def seti(eng, st, a, cal):
        if not isinstance(a[1], int):
            raise Unsupported("symbolic set_int")
        eng.store(st, a[0], FE(const(a[1]), 1, 1))
        return ()

    @t.on(FN + "clear")
    def clear(eng, st, a, cal):
        eng.store(st, a[0], FE({}, 0, 1))
        return ()
    return t


def dom_parity(self, p):
    """the parity of the canonical representative, as a term; -q is odd exactly when q is even
    and not zero"""
    lead = min(p)
    k = p[lead]
    if k > P // 2:
        q = padd({}, p, -1)
        r = self.decide(p)
        t = self.parity0(q)
        if r is False:
            return tm.not_b(t)
        z = self.zero_test(p)
        return tm.and_(1, tm.not_b(t), tm.not_b(z))
    return self.parity0(p)


def dom_parity0(self, p):
    key = tuple(sorted(p.items()))
    o = self.opaque.get(("odd", key))
    if o is None:
        o = self.opaque[("odd", key)] = tm.var("odd%d" % len(self.opaque), 1)
    return o


Dom.parity = dom_parity
Dom.parity0 = dom_parity0


# --------------------------------------------------------------- powers of one element
class PowTab:
    """execution of an addition chain: everything is a power of one variable"""

    def __init__(self, cx, name, mod):
        self.d = Dom()
        self.d.P = mod
        self.name = name
        self.tab = self.d.tab
        for n in ("inv", "inv_var", "sqrt", "is_quad_var"):     # these are what is checked
            self.tab.exact.pop(FN + n, None)

    def base(self, mag):
        return FE(var(self.name), mag, 0)

    def expo(self, v):
        v = self.d.lift(v)
        if len(v.p) != 1:
            raise Unsupported("not a power: " + pstr(v.p))
        (m, c), = v.p.items()
        if c != 1 or len(m) != 1 or m[0][0] != self.name:
            raise Unsupported("not a power: " + pstr(v.p))
        return m[0][1]

    def check_power(self, cx, name, rv, e, mod_order):
        x = self.expo(rv)
        cx.result(name, solve_exponent(cx, x, e, mod_order), detail="exponent %#x" % x)

    def check_root(self, cx, name, root, ok):
        x = self.expo(root)
        cx.result(name + ": candidate root is a^((p+1)/4)", solve_exponent(cx, x, (P + 1) // 4, P - 1), detail="exponent %#x" % x)
        self.check_quad(cx, name, ok)

    def check_quad(self, cx, name, ok):
        if not isinstance(ok, tm.T) or ok.id not in self.d.ztp:
            cx.result(name + ": flag", "unknown", detail="flag is %r" % (ok,))
            return
        p = self.d.ztp[ok.id]
        # the flag must be  [a^((p+1)/2) - a = 0]  up to a unit power of a
        ms = sorted(p.items(), key=lambda x: x[0][0][1] if x[0] else 0)
        good = len(ms) == 2 and (ms[0][1] + ms[1][1]) % P == 0 and all(len(m) == 1 for m, _ in ms) and ms[0][0][0][1] == 1
        r = solve_exponent(cx, ms[1][0][0][1], (P + 1) // 2, P - 1) if good else "sat"
        cx.result(name + ": flag says whether root^2 = a", r, detail=pstr(p))

    def pre_ok(self, cx):
        self.d.pre_ok(cx)


def solve_exponent(cx, x, e, order):
    """unsat: x is positive and congruent to e modulo the group order"""
    s = z3.Solver()
    k, r = z3.Ints("k r")
    s.add(z3.Or(z3.IntVal(x) <= 0, z3.And(z3.IntVal(x) - e == k * order + r, r > 0, r < order)))
    t = time.time()
    a = str(s.check())
    cx.extraq += 1
    cx.extrat += time.time() - t
    return a
