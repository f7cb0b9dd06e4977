"""The domain of the ECDSA level: scalars and field elements as polynomials (modulo n and modulo
p) whose canonical integers are 256-bit terms, and points as linear forms over base points.

Every override is the contract of a public operation of the crate that an L1-L3 lemma establishes
on the real code: C01-C04 for field elements, C05-C08 for scalars, C09/C10 for points, C12-C14
for the multiplications.  Code without a contract here is executed for real.
"""
import time
import z3
from . import terms as tm, mir
from .terms import T
from .execu import Abstract, Table, Outcomes
from .mir import Unsupported, UNDEF, E, Ptr
from .ref import P, N
from .fdom import Dom, FE, FS, var, const, pmul, padd, psub, ppow, pstr

SN = "libsecp256k1::curve::Scalar::"
ST = "libsecp256k1::curve::Scalar"
FN = "libsecp256k1::curve::Field::"
FT = "libsecp256k1::curve::Field"
J = "libsecp256k1::curve::Jacobian::"
A = "libsecp256k1::curve::Affine::"
MAG = 8
assert pow(-7 % P, (P - 1) // 3, P) != 1       # no point with y = 0
# x coordinates near the corners that no curve point has (x^3 + 7 is not a square)
NOX = [c for b in (0, N, P - 12, P - N - 6) for c in range(max(b - 6, 0), min(b + 13, P)) if pow(c**3 + 7, (P - 1) // 2, P) == P - 1]


def pkey(p):
    return tuple(sorted(p.items()))


def bytes_be(v):
    """the 32 big-endian bytes of a 256-bit term"""
    return tuple(tm.trunc(8, tm.lshr(256, v, 8 * k), 256) for k in range(31, -1, -1))


def leading(p):
    """the monomial that fixes scaling and sign: not the constant unless it is the only one"""
    return min([m for m in p if m] or [()])


class Ints:
    """terms for 32-byte strings; recognises strings made of one term's bytes"""

    def __init__(self):
        self.by = {}
        self.keep = []

    def split(self, v):
        b = bytes_be(v)
        if isinstance(v, T):
            self.by[tuple(x.id if isinstance(x, T) else ("k", x) for x in b)] = v
            self.keep.append((b, v))
        return b

    def join(self, b):
        if all(isinstance(x, int) for x in b):
            return int.from_bytes(bytes(b), "big")
        k = tuple(x.id if isinstance(x, T) else ("k", x) for x in b)
        v = self.by.get(k)
        if v is None:
            v = 0
            for x in b:
                v = tm.or_(256, tm.shl(256, v, 8), tm.zext(256, x, 8))
            self.by[k] = v
            self.keep.append((b, v))
        return v


class Num(Dom):
    """polynomials modulo a prime with canonical integer values"""

    def __init__(self, M, tag):
        self.tag = tag
        self.ints = {}       # variable -> canonical term
        self.byterm = {}     # term id -> polynomial
        self.canons = {}     # key -> (polynomial, term)
        self.znorm = {}      # key -> (normalised polynomial, test)
        self.keep = []
        self.sqraw = {}      # key -> (polynomial tested for being a square, test)
        Dom.__init__(self, M)

    def one(self, name, unit=False):
        """an integer-valued unknown in [unit, M-1]; -> polynomial"""
        if name not in self.ints:
            t = tm.var(name, 256, 1 if unit else 0, self.M - 1)
            self.ints[name] = t
            self.byterm[t.id] = var(name)
            self.keep.append(t)
            if unit:
                self.units.add(name)
        return var(name)

    def reduced(self, t):
        if isinstance(t, int):
            return t % self.M
        if t.hi < self.M:
            return t
        return tm.ite(256, tm.ult(256, t, self.M), t, tm.sub(256, t, self.M))

    def from_int(self, t):
        """polynomial of the residue of a 256-bit term"""
        if isinstance(t, int):
            return const(t, self.M)
        p = self.byterm.get(t.id)
        if p is None:
            r = self.reduced(t)
            p = self.byterm.get(r.id) if isinstance(r, T) else const(r, self.M)
            if p is None:
                v = "%s[%d]" % (self.tag, t.id)
                self.ints[v] = r
                p = var(v)
                self.byterm[r.id] = p
                if r.lo > 0:
                    self.units.add(v)
            self.byterm[t.id] = p
            self.keep.append((t, r))
        return p

    def canon(self, p):
        p = self.reduce(p)
        if not p:
            return 0
        if len(p) == 1:
            (m, c), = p.items()
            if not m:
                return c
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in self.ints:
                return self.ints[m[0][0]]
        k = pkey(p)
        x = self.canons.get(k)
        if x is not None:
            return x[1]
        lead = leading(p)
        if p[lead] > self.M // 2:
            q = padd({}, p, -1, self.M)
            t = self.canon(q)
            n = tm.sub(256, self.M, t)
            r = n if self.decide(p) is False else tm.ite(256, tm.eq(256, t, 0), 0, n)
        else:
            nz = self.decide(p) is False
            r = tm.var("%sc%d" % (self.tag, len(self.canons)), 256, 1 if nz else 0, self.M - 1)
        self.canons[k] = (p, r)
        if isinstance(r, T):
            self.byterm.setdefault(r.id, p)
        return r

    def zero_test(self, p):
        p = self.reduce(p)
        r = self.decide(p)
        if r is not None:
            self.confirm(p, r)
            return int(r)
        q = self.strip(p)
        lead = leading(q)
        k = pow(q[lead], -1, self.M)
        q = {m: c * k % self.M for m, c in q.items()}
        key = pkey(q)
        x = self.znorm.get(key)
        if x is None:
            x = self.znorm[key] = (q, tm.eq(256, self.canon(q), 0))
        if pkey(p) != key:
            self.canon_link(p, x[1])
        return x[1]

    def canon_link(self, p, t):
        self.links = getattr(self, "links", [])
        self.links.append((p, t))

    def parity(self, p):
        c = self.canon(p)
        return tm.trunc(1, c, 256) if isinstance(c, T) else c & 1

    def square_test(self, p):
        t = Dom.square_test(self, p)
        if isinstance(t, T):
            self.sqraw[pkey(self.reduce(p))] = (self.reduce(p), t)
        return t

    def squares(self, B):
        """w^2 - c = 0 makes c a square; a root is zero exactly when its square is"""
        out = []
        for c, t in list(self.sqraw.values()):
            for q, z in list(self.znorm.values()):
                for k in {q[m] * pow(c[m], -1, self.M) % self.M for m in q if m in c}:
                    r = psub(pmul(q, const(pow(-k, -1, self.M), self.M), self.M), padd({}, c, -1, self.M), self.M)
                    if not r or (len(r) == 1 and all(e % 2 == 0 for e in dict(next(iter(r))).values()) and pow(next(iter(r.values())), (self.M - 1) // 2, self.M) == 1):
                        out.append(z3.Implies(B.b(z), B.b(t)))
        for v, p in self.roots.items():
            out.append(B.b(self.zero_test(var(v))) == B.b(self.zero_test(p)))
        return out

    def axioms(self, B):
        """facts that tie the canonical integers together (sound for every value)"""
        out = self.squares(B)
        M = self.M
        done = set()
        for rnd in range(4):
            for k, (p, t) in list(self.canons.items()):
                if k in done:
                    continue
                done.add(k)
                z = self.zero_test(p)
                if isinstance(t, T):
                    out.append((B.z(t, 256) == 0) == B.b(z))
                    ax = self.linear(B, p, t)
                    if ax is not None:
                        out.append(ax)
            for k, (q, t) in list(self.znorm.items()):
                self.canon(q)
        return out

    def linear(self, B, p, t):
        """canonical value of a short integer combination of valued unknowns"""
        pos, n = 0, 0
        S = z3.BitVecVal(0, 264)
        if len(p) > 4:
            return None
        if len(p) == 1 and () not in p and list(p.values()) == [1]:
            return None
        for m, c in p.items():
            if not m:
                S = S + z3.BitVecVal(c, 264)
                n += 1
                continue
            x = None
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.ints:
                x = self.ints[m[0][0]]
            else:
                y = self.canons.get(pkey({m: 1}))
                x = y[1] if y else None
            if x is None:
                return None
            cc = c if c <= 8 else c - self.M
            if abs(cc) > 8:
                return None
            z = z3.ZeroExt(8, B.z(x, 256))
            if cc > 0:
                S = S + z * cc
                n += cc
            else:
                S = S + (z3.BitVecVal(self.M, 264) - z) * (-cc)
                n += -cc
        tz = z3.ZeroExt(8, B.z(t, 256))
        return z3.And(z3.ULT(tz, z3.BitVecVal(self.M, 264)), z3.Or([S == tz + z3.BitVecVal(k * self.M, 264) for k in range(n + 1)]))


class SC(Abstract):
    """an abstract scalar: a polynomial modulo n, canonical"""
    __slots__ = ("p", "d")

    def __init__(self, d, p):
        self.d, self.p = d, p

    def same(self, o):
        return isinstance(o, SC) and o.p == self.p

    __eq__ = same

    def __hash__(self):
        return id(self)

    def field(self, eng, i):
        if i != 0:
            raise Unsupported("field %d of a scalar" % i)
        t = self.d.canon(self.p)
        if isinstance(t, int):
            return tuple((t >> (32 * j)) & 0xffffffff for j in range(8))
        return tuple(tm.trunc(32, tm.lshr(256, t, 32 * j), 256) for j in range(8))

    def __repr__(self):
        return "SC(%s)" % pstr(self.p)


class ED:
    """field elements, scalars, points"""

    def __init__(self):
        self.ints = Ints()
        self.f = Num(P, "f")
        self.s = Num(N, "s")
        self.f.bytes = self.s.bytes = self.ints
        self.bases = {}      # base name -> (x polynomial, y polynomial)
        self.coord = {}      # (x key, y key) -> form
        self.forms = {}      # form key (canonical sign) -> (form, X poly, Y poly)
        self.infs = {}       # form key up to scaling -> (form, term)
        self.n = 0
        self.tab = table(self)
        self.bad = []
        self.f.bad = self.s.bad = self.bad
        self.f.tab = field_table(self)
        self.calls = []
        self.lifted = []     # x polynomials whose curve equation is tested

    # ------------------------------------------------------------ points
    def base(self, name):
        """a finite point of the curve"""
        if name not in self.bases:
            self.f.one("X#" + name, True)
            self.f.one("Y#" + name, True)
            X, Y = var("X#" + name), var("Y#" + name)
            self.f.rules["Y#" + name] = (2, padd(ppow(X, 3), const(7)))
            self.bases[name] = (X, Y)
            self.reg({name: const(1, N)}, X, Y)
        return {name: const(1, N)}

    def reg(self, form, X, Y):
        self.coord[(pkey(X), pkey(Y))] = form
        self.coord[(pkey(X), pkey(padd({}, Y, -1)))] = self.fneg(form)

    def fkey(self, form):
        return tuple(sorted((b, pkey(p)) for b, p in form.items()))

    def fnorm(self, form):
        r = {}
        for b, p in form.items():
            p = self.s.reduce(p)
            if p:
                r[b] = p
        return r

    def fneg(self, form):
        return {b: padd({}, p, -1, N) for b, p in form.items()}

    def fadd(self, f, g):
        r = dict(f)
        for b, p in g.items():
            r[b] = padd(r.get(b, {}), p, 1, N)
        return self.fnorm(r)

    def fscale(self, f, k):
        return self.fnorm({b: pmul(p, k, N) for b, p in f.items()})

    def coords(self, form):
        """(X, Y) of a finite point"""
        form = self.fnorm(form)
        k1, k2 = self.fkey(form), self.fkey(self.fneg(form))
        neg = k2 < k1
        key, cf = (k2, self.fneg(form)) if neg else (k1, form)
        x = self.forms.get(key)
        if x is None:
            if len(cf) == 1:
                (b, p), = cf.items()
                if p == const(1, N):
                    x = (cf,) + self.bases[b]
                elif p == const(-1, N):
                    X, Y = self.bases[b]
                    x = (cf, X, padd({}, Y, -1))
            if x is None:
                i = len(self.forms)
                X, Y = self.f.one("X%d" % i, True), self.f.one("Y%d" % i, True)
                self.f.rules["Y%d" % i] = (2, padd(ppow(X, 3), const(7)))
                x = (cf, X, Y)
                self.reg(cf, X, Y)
            self.forms[key] = x
        _, X, Y = x
        return X, (padd({}, Y, -1) if neg else Y)

    def xrange(self, X, lo, hi):
        """restrict the canonical value of an x coordinate (a case of a case split)"""
        (m, c), = X.items()
        n = m[0][0]
        t = self.f.ints[n] = tm.var(n, 256, lo, hi)
        self.f.byterm[t.id] = X
        self.f.keep.append(t)
        return t

    def isinf(self, form):
        form = self.fnorm(form)
        if not form:
            return 1
        if len(form) == 1:
            (b, p), = form.items()
            return self.s.zero_test(p)
        # up to a common unit monomial and sign
        ms = None
        for p in form.values():
            for m in p:
                d = dict(m)
                ms = dict(d) if ms is None else {v: min(ms.get(v, 0), d.get(v, 0)) for v in set(ms) | set(d)}
        u = tuple(sorted((v, -e) for v, e in ms.items() if e and v in self.s.units))
        g = self.fscale(form, {u: 1}) if u else form
        b0 = min(g)
        lead = g[b0][min(g[b0])]
        g = self.fscale(g, const(pow(lead, -1, N), N))
        k = self.fkey(g)
        x = self.infs.get(k)
        if x is None:
            x = self.infs[k] = (g, tm.var("inf%d" % len(self.infs), 1))
        return x[1]

    def axioms(self, B):
        """group facts for the undecided infinity tests, plus the integer facts"""
        out = []
        fs = [g for g, t in self.infs.values()]
        for g in list(fs):
            for h in list(fs):
                if g is h:
                    continue
                for sgn in (1, -1):
                    d = self.fadd(g, h if sgn == 1 else self.fneg(h))
                    if len(d) <= 1 or self.fkey_known(d):
                        a, b, c = self.isinf(g), self.isinf(h), self.isinf(d)
                        out.append(z3.Implies(z3.And(B.b(a), B.b(b)), B.b(c)))
                        out.append(z3.Implies(z3.And(B.b(a), B.b(c)), B.b(b)))
        for x in self.lifted:
            q = B.b(self.f.square_test(self.f.reduce(padd(ppow(x, 3), const(7)))))
            out.append(z3.Not(B.b(self.f.zero_test(padd(ppow(x, 3), const(7))))))
            out.append(z3.Implies(q, z3.And([B.z(self.f.canon(x), 256) != c for c in NOX])))
        for cf, X, Y in self.forms.values():
            out.append(z3.And([B.z(self.f.canon(X), 256) != c for c in NOX]))
        return out + self.f.axioms(B) + self.s.axioms(B)

    def fkey_known(self, d):
        n = len(self.infs)
        t = self.isinf(d)
        if len(self.infs) > n:
            self.infs.popitem()
            return False
        return True

    def decode_affine(self, v):
        """form of an affine value whose flag is concrete"""
        x, y, inf = v
        if not isinstance(inf, int):
            raise Unsupported("symbolic infinity flag")
        if inf:
            return {}
        return self.decode_xy(self.f.lift(x).p, self.f.lift(y).p)

    def decode_xy(self, X, Y):
        X, Y = self.f.reduce(X), self.f.reduce(Y)
        f = self.coord.get((pkey(X), pkey(Y)))
        if f is not None:
            return f
        d = self.f.reduce(psub(pmul(Y, Y), padd(ppow(X, 3), const(7))))
        if d:
            raise Unsupported("point not known to be on the curve: x=%s y=%s" % (pstr(X), pstr(Y)))
        # a new base point; the representative of +-Y with the smaller leading coefficient
        lead = leading(Y)
        neg = Y[lead] > P // 2
        name = "P%d" % len(self.bases)
        self.bases[name] = (X, padd({}, Y, -1) if neg else Y)
        f = {name: const(1, N)}
        self.reg(f, *self.bases[name])
        return self.fneg(f) if neg else f

    def decode_jac(self, v):
        x, y, z, inf = v
        if not isinstance(inf, int):
            raise Unsupported("symbolic infinity flag")
        if inf:
            return {}
        z = self.f.reduce(self.f.lift(z).p)
        if len(z) != 1 or not all(w in self.f.units for w, _ in next(iter(z))):
            raise Unsupported("Jacobian z is not a unit monomial")
        zi = self.f.inverse(z)
        zi2 = pmul(zi, zi)
        return self.decode_xy(pmul(self.f.lift(x).p, zi2), pmul(self.f.lift(y).p, pmul(zi2, zi)))

    def junk(self):
        self.n += 1
        return FE(var("junk%d" % self.n), MAG, 0)

    def affine(self, form, mag=MAG):
        X, Y = self.coords(form)
        return (FE(X, mag, 0), FE(Y, mag, 0), 0)

    def outcomes(self, eng, st, form):
        """[(state, jacobian value)] for a point that is `form`"""
        t = self.isinf(form)
        out = []
        for val in (1, 0):
            if isinstance(t, int) and t != val:
                continue
            s = st.fork()
            if isinstance(t, T):
                s.assume(t if val else tm.not_b(t))
            if eng.feas is not None and eng.feas(s.pc) == "unsat":
                continue
            if val:
                out.append((s, (self.junk(), self.junk(), self.junk(), 1)))
            else:
                self.n += 1
                zn = "z%d" % self.n
                self.f.units.add(zn)
                X, Y = self.coords(form)
                z = var(zn)
                out.append((s, (FE(pmul(X, pmul(z, z)), MAG, 0), FE(pmul(Y, ppow(z, 3)), MAG, 0), FE(z, MAG, 0), 0)))
        return out

    # ----------------------------------------------------------- scalars
    def sc(self, name, unit=False):
        return SC(self.s, self.s.one(name, unit))

    def scp(self, p):
        return SC(self.s, self.s.reduce(p))

    def lift(self, v):
        if isinstance(v, SC):
            return v
        if isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], tuple) and len(v[0]) == 8:
            if all(isinstance(x, int) for x in v[0]):
                return SC(self.s, const(sum(x << (32 * i) for i, x in enumerate(v[0])), N))
            t = 0
            for i, x in enumerate(v[0]):
                t = tm.or_(256, t, tm.shl(256, tm.zext(256, x, 32), 32 * i))
            for q, (p, c) in self.s.canons.items():
                pass
            return SC(self.s, self.s.from_int(self.known_limbs(v[0], t)))
        raise Unsupported("scalar operation on %r" % (v,))

    def known_limbs(self, l, t):
        x = l[0]
        if isinstance(x, T) and x.op == "trunc" and x.a[0].w == 256:
            v = x.a[0]
            if all(isinstance(y, T) and y is tm.trunc(32, tm.lshr(256, v, 32 * i), 256) for i, y in enumerate(l)):
                return v
        return t

    def pre(self, cond, what):
        if not cond:
            self.bad.append(what)

    def pre_ok(self, cx, name="preconditions of the contracts used"):
        cx.true(name, not self.bad, detail=str(self.bad[:4]))
        for d in (self.f, self.s):
            cx.extraq += d.queries
            cx.extrat += d.time
            d.queries = 0
            d.time = 0.0


def field_table(D):
    """contracts of the byte-level and ordering operations of field elements"""
    t = D.f.tab
    d = D.f

    def L(eng, st, p):
        return d.lift(eng.load(st, p))

    @t.on(FN + "set_b32")
    def setb32(eng, st, a, cal):
        b = eng.load(st, a[1])
        if any(x is UNDEF for x in b):
            raise Unsupported("undefined bytes")
        v = D.ints.join(b)
        ok = tm.ult(256, v, P)
        out = []
        for val in (1, 0):
            if isinstance(ok, int) and ok != val:
                continue
            s = st.fork()
            if isinstance(ok, T):
                s.assume(ok if val else tm.not_b(ok))
            if eng.feas is not None and eng.feas(s.pc) == "unsat":
                continue
            eng.store(s, a[0], FE(d.from_int(v), 1, 1) if val else D.junk())
            out.append((s, val))
        return Outcomes(out)

    @t.on(FN + "b32")
    def b32(eng, st, a, cal):
        x = L(eng, st, a[0])
        d.pre(x.norm == 1, "b32 of an element that is not normalised")
        return D.ints.split(d.canon(x.p))

    @t.on(FN + "fill_b32")
    def fillb32(eng, st, a, cal):
        x = L(eng, st, a[0])
        d.pre(x.norm == 1, "fill_b32 of an element that is not normalised")
        eng.store(st, a[1], D.ints.split(d.canon(x.p)))
        return ()

    @t.on(FN + "cmp_var")
    def cmp(eng, st, a, cal):
        x, y = L(eng, st, a[0]), L(eng, st, a[1])
        d.pre(x.norm == 1 and y.norm == 1, "comparison of elements that are not normalised")
        p, q = d.canon(x.p), d.canon(y.p)
        return E(tm.ite(8, tm.ult(256, p, q), 0, tm.ite(8, tm.eq(256, p, q), 1, 2)), {0: (), 1: (), 2: ()})

    sqrt0, quad0 = t.exact[FN + "sqrt"], t.exact[FN + "is_quad_var"]

    def known_y(p):
        """y coordinate of a known point with y^2 = p, or None"""
        p = d.reduce(p)
        for k, (cf, X, Y) in list(D.forms.items()):
            if d.reduce(pmul(Y, Y)) == p:
                return Y
        return None

    @t.on(FN + "sqrt")
    def sqrt(eng, st, a, cal):
        """the root that is a square itself: y or -y of the known point"""
        x = L(eng, st, a[0])
        y = known_y(x.p)
        if y is None:
            return sqrt0(eng, st, a, cal)
        d.pre(x.mag <= 8, "sqrt: magnitude %s" % x.mag)
        c = d.square_test(y)
        out = []
        for val in (1, 0):
            if isinstance(c, int) and c != val:
                continue
            s = st.fork()
            if isinstance(c, T):
                s.assume(c if val else tm.not_b(c))
            out.append((s, (FE(y if val else padd({}, y, -1), 1, 0), 1)))
        return Outcomes(out)

    @t.on(FN + "is_quad_var")
    def isq(eng, st, a, cal):
        x = L(eng, st, a[0])
        if known_y(x.p) is not None:
            return 1
        return quad0(eng, st, a, cal)

    @t.on(FN + "eq_var", "<%s as std::cmp::PartialEq>::eq" % FT)
    def eq(eng, st, a, cal):
        x, y = L(eng, st, a[0]), L(eng, st, a[1])
        d.pre(x.mag + y.mag + 1 <= 31, "equality: magnitudes %d, %d" % (x.mag, y.mag))
        return d.zero_test(psub(x.p, y.p))
    return t


def table(D):
    t = Table()
    s = D.s

    def L(eng, st, p):
        return D.lift(eng.load(st, p))

    def V(x, eng, st):
        return D.lift(eng.load(st, x)) if isinstance(x, Ptr) else D.lift(x)

    def mk(p):
        return SC(s, s.reduce(p))

    # ---- scalars
    @t.on(SN + "set_b32")
    def setb32(eng, st, a, cal):
        b = eng.load(st, a[1])
        if any(x is UNDEF for x in b):
            raise Unsupported("undefined bytes")
        v = D.ints.join(b)
        eng.store(st, a[0], SC(s, s.from_int(v)))
        o = tm.not_b(tm.ult(256, v, N))
        return (tm.zext(8, o, 1) if isinstance(o, T) else o,)

    @t.on(SN + "b32")
    def b32(eng, st, a, cal):
        return D.ints.split(s.canon(L(eng, st, a[0]).p))

    @t.on(SN + "fill_b32")
    def fill(eng, st, a, cal):
        eng.store(st, a[1], D.ints.split(s.canon(L(eng, st, a[0]).p)))
        return ()

    @t.on(SN + "is_zero")
    def isz(eng, st, a, cal):
        return s.zero_test(L(eng, st, a[0]).p)

    @t.on(SN + "is_one")
    def iso(eng, st, a, cal):
        return s.zero_test(psub(L(eng, st, a[0]).p, const(1, N), N))

    @t.on(SN + "is_even")
    def ise(eng, st, a, cal):
        x = s.parity(L(eng, st, a[0]).p)
        return tm.not_b(x)

    @t.on(SN + "is_high")
    def ish(eng, st, a, cal):
        return tm.ult(256, (N - 1) // 2, s.canon(L(eng, st, a[0]).p))

    @t.on("<%s as std::cmp::PartialEq>::eq" % ST)
    def eq(eng, st, a, cal):
        return s.zero_test(psub(L(eng, st, a[0]).p, L(eng, st, a[1]).p, N))

    @t.on(SN + "clear")
    def clr(eng, st, a, cal):
        eng.store(st, a[0], SC(s, {}))
        return ()

    @t.on(SN + "set_int")
    def seti(eng, st, a, cal):
        if not isinstance(a[1], int):
            return NotImplemented
        eng.store(st, a[0], SC(s, const(a[1], N)))
        return ()

    @t.on(SN + "from_int")
    def fri(eng, st, a, cal):
        if not isinstance(a[0], int):
            return NotImplemented
        return SC(s, const(a[0], N))

    @t.on("<%s as std::default::Default>::default" % ST)
    def dflt(eng, st, a, cal):
        return SC(s, {})

    @t.on(SN + "mul_in_place")
    def mulip(eng, st, a, cal):
        eng.store(st, a[0], mk(pmul(L(eng, st, a[1]).p, L(eng, st, a[2]).p, N)))
        return ()

    @t.on(SN + "sqr_in_place")
    def sqrip(eng, st, a, cal):
        p = L(eng, st, a[1]).p
        eng.store(st, a[0], mk(pmul(p, p, N)))
        return ()

    @t.on(SN + "sqr")
    def sqr(eng, st, a, cal):
        p = L(eng, st, a[0]).p
        return mk(pmul(p, p, N))

    @t.on(SN + "inv_in_place")
    def invip(eng, st, a, cal):
        eng.store(st, a[0], SC(s, s.inverse(L(eng, st, a[1]).p)))
        return ()

    @t.on(SN + "inv", SN + "inv_var")
    def inv(eng, st, a, cal):
        return SC(s, s.inverse(L(eng, st, a[0]).p))

    @t.on(SN + "cond_neg_assign")
    def cneg(eng, st, a, cal):
        x = L(eng, st, a[0])
        f = a[1][0]
        out = []
        for val in (1, 0):
            c = tm.eq(8, f, 1) if val else tm.eq(8, f, 0)
            if isinstance(c, int) and not c:
                continue
            q = st.fork()
            q.assume(c)
            eng.store(q, a[0], mk(padd({}, x.p, -1, N)) if val else x)
            out.append((q, ()))
        return Outcomes(out)

    def binop(names, f):
        for n in names:
            t.exact[n] = f

    def addv(eng, st, a, cal):
        return mk(padd(V(a[0], eng, st).p, V(a[1], eng, st).p, 1, N))

    def mulv(eng, st, a, cal):
        return mk(pmul(V(a[0], eng, st).p, V(a[1], eng, st).p, N))

    def negv(eng, st, a, cal):
        return mk(padd({}, V(a[0], eng, st).p, -1, N))

    def asg(f):
        def g(eng, st, a, cal):
            eng.store(st, a[0], f(eng, st, a, cal))
            return ()
        return g
    for op, f in (("add", addv), ("mul", mulv)):
        tr = op.capitalize()
        t.rx.append((__import__("re").compile(r"<&?%s as std::ops::%s(<&?%s>)?>::%s" % (ST, tr, ST, op)), f))
        t.rx.append((__import__("re").compile(r"<%s as std::ops::%sAssign(<&?%s>)?>::%s_assign" % (ST, tr, ST, op)), asg(f)))
    t.rx.append((__import__("re").compile(r"<&?%s as std::ops::Neg>::neg" % ST), negv))

    # ---- points
    def opt_none(v):
        return isinstance(v, E) and v.d == 0

    def put(eng, st, ptr, form):
        out = []
        for q, v in D.outcomes(eng, st, form):
            eng.store(q, ptr, v)
            out.append((q, ()))
        return Outcomes(out)

    @t.on("libsecp256k1::curve::ECMultContext::ecmult")
    def ecmult(eng, st, a, cal):
        f = D.decode_jac(eng.load(st, a[2]))
        D.pre(f, "ecmult of the point at infinity")
        na, ng = L(eng, st, a[3]), L(eng, st, a[4])
        D.calls.append(("ecmult", st.pc, f, na, ng))
        return put(eng, st, a[1], D.fadd(D.fscale(f, na.p), D.fscale(D.base("G"), ng.p)))

    @t.on("libsecp256k1::curve::ECMultContext::ecmult_const")
    def ecmultc(eng, st, a, cal):
        f = D.decode_affine(eng.load(st, a[2]))
        D.pre(f, "ecmult_const of the point at infinity")
        n = L(eng, st, a[3])
        D.calls.append(("ecmult_const", st.pc, f, n))
        return put(eng, st, a[1], D.fscale(f, n.p))

    @t.on("libsecp256k1::curve::ECMultGenContext::ecmult_gen")
    def ecmultg(eng, st, a, cal):
        n = L(eng, st, a[2])
        D.calls.append(("ecmult_gen", st.pc, n))
        return put(eng, st, a[1], D.fscale(D.base("G"), n.p))

    def adds(nm, bdec, hasr):
        @t.on(J + nm + "_in_place")
        def ip(eng, st, a, cal):
            if hasr and not opt_none(a[3]):
                return NotImplemented
            x, y = D.decode_jac(eng.load(st, a[1])), bdec(eng.load(st, a[2]))
            if nm == "add_ge":
                D.pre(y, "add_ge with the point at infinity")
            return put(eng, st, a[0], D.fadd(x, y))

        @t.on(J + nm)
        def bv(eng, st, a, cal):
            if hasr and not opt_none(a[2]):
                return NotImplemented
            x, y = D.decode_jac(eng.load(st, a[0])), bdec(eng.load(st, a[1]))
            if nm == "add_ge":
                D.pre(y, "add_ge with the point at infinity")
            return Outcomes(D.outcomes(eng, st, D.fadd(x, y)))
    adds("add_var", D.decode_jac, 1)
    adds("add_ge_var", D.decode_affine, 1)
    adds("add_ge", D.decode_affine, 0)

    @t.on(J + "double_var_in_place")
    def dbl(eng, st, a, cal):
        if not opt_none(a[2]):
            return NotImplemented
        return put(eng, st, a[0], D.fscale(D.decode_jac(eng.load(st, a[1])), const(2, N)))

    @t.on(J + "double_var")
    def dblv(eng, st, a, cal):
        if not opt_none(a[1]):
            return NotImplemented
        return Outcomes(D.outcomes(eng, st, D.fscale(D.decode_jac(eng.load(st, a[0])), const(2, N))))
    return t
