"""The domain of the multiplication level: field elements that are coordinates of points, and
points as linear forms over base points with symbolic integer coefficients.

A field element is still a polynomial modulo p (fdom), here always one monomial: at most one
coordinate variable X#k / Y#k (the affine x / y coordinate of the point of form k) times units.
A Jacobian triple (X#F z^2 f^2, Y#F z^3 f^3, z) stands for the point F on the curve
y^2 = x^3 + 7 f^6 (its "frame" f: the isomorphic copies in which the tables share one z).  The
group operations are the contracts of C09 (proved for every frame); everything else, the
conversions, the tables, conditional moves, the loops, is the real code.

Where two states, or two table entries, meet, the forms are merged into a form whose coefficients
are if-then-else terms; a symbolic table index therefore needs no case split.
"""
import math
import z3
from . import terms as tm, ref
from .terms import T
from .execu import Abstract, Table, Outcomes, CantMerge
from .mir import Unsupported, UNDEF, E, Ptr
from .ref import P, N
from .fdom import Dom, FE, FS, var, const, pmul, padd, ppow, mmul, pstr

FN = "libsecp256k1::curve::Field::"
J = "libsecp256k1::curve::Jacobian::"
MAG = 8
AW = 96             # width of the terms that stand for small integer coefficients


# ------------------------------------------------------------------ integer linear expressions
# a dict {atom: int}; atom: None (the constant 1), a string (an opaque integer), or a 64-bit
# term read as a signed integer of small absolute value
def ladd(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        v = r.get(x, 0) + k * c
        if v:
            r[x] = v
        else:
            r.pop(x, None)
    return r


def lscale(a, k):
    return {x: c * k for x, c in a.items()} if k else {}


def lconst(c):
    return {None: c} if c else {}


def opaque(a):
    return any(isinstance(x, str) for x in a)


def lkey(a):
    return tuple(sorted((("k", "") if x is None else ("s", x) if isinstance(x, str) else ("t", x.id)) + (c,) for x, c in a.items()))


def sgn(v):
    return v - (1 << AW) if v >> (AW - 1) else v


class Form:
    """sum of coefficient * base point; inf: bool term, true iff the point is infinity"""
    __slots__ = ("c", "inf")

    def __init__(self, c, inf):
        self.c = {b: l for b, l in c.items() if l}
        self.inf = inf

    def key(self):
        return (tuple(sorted((b, lkey(l)) for b, l in self.c.items())), self.inf.id if isinstance(self.inf, T) else self.inf)

    def __repr__(self):
        def s(l):
            return "(" + " + ".join("%d%s" % (c, "" if x is None else "*%s" % (x if isinstance(x, str) else "t%d" % x.id)) for x, c in l.items()) + ")"
        return " + ".join("%s*%s" % (s(l), b) for b, l in self.c.items()) or "0"


ZERO = Form({}, 1)


class GE(FE):
    """an element whose magnitude depends on which case applies (mt: 8-bit term <= mag)"""
    __slots__ = ("mt",)

    def __init__(self, p, mag, norm, mt):
        super().__init__(p, mag, norm)
        self.mt = mt

    def same(self, o):
        return isinstance(o, GE) and super().same(o) and self.mt is o.mt


class TabArr(Abstract):
    """a large constant table given by what it holds: at(i) for a (possibly symbolic) index"""

    def __init__(self, n, at):
        self.n, self.at = n, at

    def __len__(self):
        return self.n

    def field(self, eng, i):
        return self.at(i)

    def select(self, eng, i):
        return self.at(i)


class GDom(Dom):
    def __init__(self, cx=None, **_):
        super().__init__(P)
        self.cx = cx
        self.forms = []
        self.ids = {}
        self.bound = {}         # small atom id -> bound of its absolute value
        self.keep = []
        self.digits = []        # small terms that coefficients are recognised as
        self.ax = []            # z3 facts about the digits
        self.itew = {}          # unit variable -> (condition, polynomial monomial)
        self.soft = set()       # z coordinates of possibly infinite points
        self.ground = {}        # affine coordinates -> {base: int}
        self.finite = set()     # bases that are finite points
        self.infs = {}
        self.nj = 0
        self.B = cx.bv() if cx else None
        self.canoned = {}
        self.gtab = gtable(self)

    # ------------------------------------------------------------- forms
    def fid(self, F):
        k = F.key()
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.forms)
            self.forms.append(F)
        return i

    def isinf(self, c):
        """infinity flag of a form with coefficients c"""
        c = {b: l for b, l in c.items() if l}
        if not c:
            return 1
        if len(c) == 1:
            (b, l), = c.items()
            if b in self.finite and set(l) == {None}:
                return int(l[None] % N == 0)
        if all(b in self.gpt for b in c) and all(set(l) == {None} for l in c.values()):
            s = None
            for b, l in c.items():
                s = ref.add(s, ref.mul(l[None] % N, self.gpt[b]))
            return int(s is None)
        k = tuple(sorted((b, lkey(l)) for b, l in c.items()))
        k2 = tuple(sorted((b, lkey(lscale(l, -1))) for b, l in c.items()))
        t = self.infs.get(k)
        if t is None:
            t = self.infs[k] = self.infs[k2] = tm.var("inf%d" % len(self.infs), 1)
        return t

    gpt = {}

    def form(self, c, inf=None):
        return Form(c, self.isinf(c) if inf is None else inf)

    def fadd(self, F, G):
        c = dict(F.c)
        for b, l in G.c.items():
            c[b] = ladd(c.get(b, {}), l)
        if not F.c:
            return G
        if not G.c:
            return F
        return self.form(c)

    def fdouble(self, F):
        return Form({b: lscale(l, 2) for b, l in F.c.items()}, F.inf)

    def fneg(self, F):
        return Form({b: lscale(l, -1) for b, l in F.c.items()}, F.inf)

    # ------------------------------------------------------------- atoms
    def atom(self, t, bound):
        self.bound[t.id] = max(self.bound.get(t.id, 0), bound)
        self.keep.append(t)
        return {t: 1}

    def digit(self, t, w=32, bound=None):
        """the signed w-bit term t as a coefficient"""
        s = tm.sext(AW, t, w)
        if not isinstance(s, T):
            return lconst(sgn(s))
        self.digits.append(s)
        return self.atom(s, bound or 1 << (w - 1))

    def lbound(self, l):
        return sum(abs(c) * (1 if x is None else self.bound[x.id]) for x, c in l.items())

    def tobv(self, l):
        """small term of a small expression without opaque atoms"""
        if opaque(l) or self.lbound(l) >= 1 << (AW - 2):
            return None
        r = l.get(None, 0) & tm.mask(AW)
        for x, c in l.items():
            if x is not None:
                r = tm.add(AW, r, x if c == 1 else tm.mul(AW, x, c & tm.mask(AW)))
        return r

    def lmerge(self, c, a, b):
        if a == b:
            return a
        com = {x: v for x, v in a.items() if b.get(x) == v}
        ra, rb = ladd(a, com, -1), ladd(b, com, -1)
        g = 0
        for v in list(ra.values()) + list(rb.values()):
            g = math.gcd(g, v)
        ra, rb = ({x: v // g for x, v in r.items()} for r in (ra, rb))
        ta, tb = self.tobv(ra), self.tobv(rb)
        if ta is None or tb is None:
            raise CantMerge("coefficients of different shape: %s / %s" % (a, b))
        t, k = self.tidy(tm.ite(AW, c, ta, tb))
        g *= k
        if not isinstance(t, T):
            return ladd(com, lconst(g * sgn(t)))
        self.atom(t, max(self.lbound(ra), self.lbound(rb)) // k)
        return ladd(com, {t: g})

    def tidy(self, t):
        """(t', k) with t = k t': a chain of selections on all values of one index has no default;
        the common factor of constant leaves is taken out"""
        ch = []
        x = t
        while isinstance(x, T) and x.op == "ite" and isinstance(x.a[0], T) and x.a[0].op == "eq":
            ch.append((x.a[0], x.a[1]))
            x = x.a[2]
        if len(ch) < 2:
            return t, 1
        ix, seen, cut = None, set(), None
        for n, (c, v) in enumerate(ch):
            a, k = c.a
            if not isinstance(a, T):
                a, k = k, a
            if not isinstance(k, int) or not isinstance(a, T):
                break
            if ix is None:
                ix = a
            elif a is not ix:
                break
            seen.add(k)
            if len(seen) == ix.hi - ix.lo + 1 and all(ix.lo <= y <= ix.hi for y in seen):
                cut = n
                break
        if cut is None:
            return t, 1
        x = ch[cut][1]
        vals = [v for _, v in ch[:cut]] + [x]
        k = 1
        if all(isinstance(v, int) for v in vals):
            k = math.gcd(0, *[sgn(v) for v in vals]) or 1
            vals = [sgn(v) // k & tm.mask(AW) for v in vals]
            x = vals[-1]
        for (c, _), v in zip(reversed(ch[:cut]), reversed(vals[:-1])):
            x = tm.ite(AW, c, v, x)
        return x, k

    def junk(self, like):
        self.nj += 1
        d = {}
        for b, l in like.c.items():
            t = tm.var("junk%d_%s" % (self.nj, b), AW)
            d[b] = lscale(self.atom(t, 1 << 40), math.gcd(0, *l.values()))
        return Form(d, like.inf)

    def fmerge(self, c, F, G):
        if F is G or F.key() == G.key():
            return F
        inf = F.inf if F.inf is G.inf or F.inf == G.inf else tm.ite(1, c, F.inf, G.inf)
        return Form({b: self.lmerge(c, F.c.get(b, {}), G.c.get(b, {})) for b in set(F.c) | set(G.c)}, inf)

    # ------------------------------------------------------------- monomials
    def parse(self, p):
        """(kind, form, units, coefficient): kind X, Y, U (units only), 0, or None"""
        if not p:
            return "0", None, (), 0
        if len(p) != 1:
            return None
        (m, c), = p.items()
        k, F, u = "U", None, []
        for v, e in m:
            if v[:2] in ("X#", "Y#"):
                if k != "U" or e != 1:
                    return None
                k, F = v[0], self.forms[int(v[2:])]
            elif v in self.units:
                u.append((v, e))
            else:
                return None
        if k == "Y" and c == P - 1:
            F, c = self.fneg(F), 1
        return k, F, tuple(u), c

    def mono(self, k, F, u, c=1):
        m = tuple(u)
        if k in ("X", "Y"):
            m = mmul(m, (("%s#%d" % (k, self.fid(F)), 1),))
        return {tuple(sorted(m)): c % P}

    def itemono(self, c, m):
        """the monomial (m if c else 1)"""
        if not m:
            return ()
        g = 0
        for _, e in m:
            g = math.gcd(g, abs(e))
        if m[0][1] < 0:
            g = -g
        prim = tuple((v, e // g) for v, e in m)
        key = ("ite", c.id, prim)
        w = self.opaque.get(key)
        if w is None:
            w = self.opaque[key] = self.fresh("ite")
            self.units.add(w)
            if any(v in self.soft for v, _ in prim):
                self.soft.add(w)
            self.itew[w] = (c, prim)
            self.keep.append(c)
        return ((w, g),)

    def unknown(self):
        return var(self.fresh("unk"))

    def pmerge(self, c, p, q):
        """polynomial of (p if c else q)"""
        if p == q:
            return p
        a, b = self.parse(p), self.parse(q)
        if a is None or b is None:
            return self.unknown()
        ka, Fa, ua, ca = a
        kb, Fb, ub, cb = b
        if ka == kb and ka != "0" and ca == cb:
            r = mmul(ua, tuple((v, -e) for v, e in ub))
            u = mmul(ub, self.itemono(c, r))
            return self.mono(ka, self.fmerge(c, Fa, Fb) if Fa else None, u, ca)
        if ka in "XY" and kb in "0U":
            return self.mono(ka, self.fmerge(c, Fa, self.junk(Fa)), ua, ca)
        if kb in "XY" and ka in "0U":
            return self.mono(kb, self.fmerge(c, self.junk(Fb), Fb), ub, cb)
        if "0" in (ka, kb) and "U" in (ka, kb):
            # a unit on one side only: used where the condition decides, an unknown unit elsewhere
            w = self.fresh("unit")
            self.units.add(w)
            self.soft.add(w)
            s = (1 if ka == "U" else 0)
            u, co = (ua, ca) if s else (ub, cb)
            x = self.itemono(tm.not_b(c) if s else c, ((w, 1),))
            return self.mono("U", None, mmul(u, x), co)
        return self.unknown()

    def merge(self, eng, c, x, y):
        if not isinstance(c, T):
            return x if c else y
        try:
            if isinstance(x, FS) or isinstance(y, FS):
                return FS(self.pmerge(c, self.fsp(x), self.fsp(y)))
            x, y = self.lift(x), self.lift(y)
        except Unsupported:
            return None
        n = x.norm if x.norm == y.norm else (tm.ite(1, c, x.norm, y.norm) if isinstance(x.norm, T) or isinstance(y.norm, T) else 0)
        p = self.pmerge(c, x.p, y.p)
        if x.mag == y.mag and not isinstance(x, GE) and not isinstance(y, GE):
            return FE(p, x.mag, n)
        mt = tm.ite(8, c, getattr(x, "mt", x.mag), getattr(y, "mt", y.mag))
        return GE(p, max(x.mag, y.mag), n, mt)

    def tighten(self, x, m, pc):
        """x with its magnitude bound lowered to m, if every possible case allows that"""
        if isinstance(x, GE) and isinstance(m, int) and x.mag > m and isinstance(x.mt, T) and self.valid(z3.ULE(self.B.z(x.mt, 8), m), pc):
            return FE(x.p, m, x.norm)
        return x

    def fsp(self, v):
        if isinstance(v, FS):
            return v.p
        if isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], tuple) and len(v[0]) == 8 and all(isinstance(x, int) for x in v[0]):
            return const(sum(x << (32 * i) for i, x in enumerate(v[0])))
        raise Unsupported("storage value %r" % (type(v),))

    # ------------------------------------------------------------- reading points
    def valid(self, cond, pc):
        return self.B.valid(cond, list(pc) + self.ax)[0] == "unsat"

    def must(self, t, pc):
        if isinstance(t, int):
            return bool(t)
        return self.valid(self.B.b(t), pc)

    def canon(self, l, pc):
        """small part of an expression replaced by a digit it always equals"""
        if not any(isinstance(x, T) and x not in self.digits for x in l):
            return l
        big = {x: c for x, c in l.items() if isinstance(x, str)}
        sm = ladd(l, big, -1)
        g = 0
        for v in sm.values():
            g = math.gcd(g, v)
        t = self.tobv({x: v // g for x, v in sm.items()})
        if t is None:
            return l
        if not isinstance(t, T):
            return ladd(big, lconst(g * sgn(t)))
        k = (t.id, tuple(x.id if isinstance(x, T) else id(x) for x in pc))
        if k in self.canoned:
            d = self.canoned[k]
            return l if d is None else ladd(big, {d: g}) if isinstance(d, T) else ladd(big, lconst(g * d))
        self.keep.append((t, pc))
        r, m = self.B.check(list(pc) + self.ax)
        if r == "sat":
            v = m.eval(self.B.z(t, AW), model_completion=True).as_signed_long()
            if self.valid(self.B.z(t, AW) == v, pc):
                self.canoned[k] = v
                return ladd(big, lconst(g * v))
        used = {v.id for v in tvars(t)}
        for d in reversed(self.digits):
            if not any(v.id in used for v in tvars(d)):
                continue
            if r == "sat" and m.eval(self.B.z(d, AW), model_completion=True).as_signed_long() != v:
                continue
            if self.valid(self.B.z(t, AW) == self.B.z(d, AW), pc):
                self.canoned[k] = d
                return ladd(big, {d: g})
        self.canoned[k] = None
        return l

    def equal(self, F, G, pc):
        """1, -1 when F = +-G as coefficient vectors in every case; 2 when one or the other holds in
        each case; 0 when none of these could be shown"""
        bs = set(F.c) | set(G.c)
        for s in (1, -1):
            if all(F.c.get(b, {}) == lscale(G.c.get(b, {}), s) for b in bs):
                return s
        alts = []
        for s in (1, -1):
            cs = []
            for b in bs:
                d = ladd(F.c.get(b, {}), lscale(G.c.get(b, {}), s), -1)
                g = math.gcd(0, *d.values()) or 1
                t = self.tobv({x: v // g for x, v in d.items()})
                if t is None:
                    cs = None
                    break
                cs.append(self.B.z(t, AW) == 0)
            if cs is not None:
                alts.append(z3.And(cs))
        return 2 if alts and self.valid(z3.Or(alts), pc) else 0

    def simp(self, u, pc):
        """units with decided conditions resolved"""
        r = ()
        for v, e in u:
            if v in self.itew:
                c, prim = self.itew[v]
                if self.must(c, pc):
                    r = mmul(r, self.simp(tuple((x, y * e) for x, y in prim), pc))
                    continue
                if self.must(tm.not_b(c), pc):
                    continue
            r = mmul(r, ((v, e),))
        return r

    def read(self, st, x, y, z, inf, what):
        """(form, frame) of a point; z: polynomial.  Infinity has no frame (None)"""
        if isinstance(inf, int) and inf:
            return ZERO, None
        pc = list(st.pc)
        fin = pc + ([tm.not_b(inf)] if isinstance(inf, T) else [])
        for v in (x, y):
            self.pre(v.mag <= MAG, "%s: coordinate of magnitude %s" % (what, v.mag))
        gx, gy, gz = (all(m == () for m in v) for v in (x.p, y.p, z))
        if gx and gy and gz and z:
            zi = pow(z[()], -1, P)
            k = (x.p.get((), 0) * zi * zi % P, y.p.get((), 0) * zi**3 % P)
            if inf != 0:
                raise Unsupported("%s: infinity flag of a constant point" % what)
            if k in self.ground:
                return self.form({b: lconst(c) for b, c in self.ground[k].items()}), ()
            raise Unsupported("%s: constant point that is not known" % what)
        a, b, zz = self.parse(x.p), self.parse(y.p), self.parse(z)
        if a and b and a[0] == "U" and b[0] == "U" and (a[3], b[3]) in self.ground:
            F = self.form({k: lconst(c) for k, c in self.ground[a[3], b[3]].items()})
            a, b = ("X", F, a[2], 1), ("Y", F, b[2], 1)
        if a is None or b is None or zz is None or a[0] != "X" or b[0] != "Y" or zz[0] != "U" or zz[3] not in (1, P - 1) or a[3] != 1 or b[3] != 1:
            raise Unsupported("%s: coordinates not recognised: %s | %s | %s" % (what, pstr(x.p), pstr(y.p), pstr(z)))
        Fx, F = a[1], b[1]
        if zz[3] == P - 1:      # z = -u: y / z^3 changes sign
            F = self.fneg(F)
        F = Form({k: self.canon(l, fin) for k, l in F.c.items()}, F.inf)
        if not self.equal(Fx, F, fin):
            raise Unsupported("%s: x and y belong to different points: %r / %r" % (what, Fx, F))
        for t in {x for l in F.c.values() for x in l if isinstance(x, T)}:
            if any(str(v.a[0]).startswith("junk") for v in tvars(t)):
                raise Unsupported("%s: value of a point that was never set" % what)
        inv = lambda m, k: tuple((v, -e * k) for v, e in m)
        fx = mmul(a[2], inv(zz[2], 2))
        fy = mmul(b[2], inv(zz[2], 3))
        f = mmul(fy, inv(fx, 1))
        if mmul(f, f) != fx:
            f = self.simp(f, fin)
            if mmul(f, f) != self.simp(fx, fin):
                raise Unsupported("%s: not a point of a scaled curve (%r, %r)" % (what, fx, fy))
        if any(v in self.itew for v, _ in f):
            f = self.simp(f, fin)
        if any(v in self.soft for v, _ in f):
            raise Unsupported("%s: frame depends on the z of a possibly infinite point" % what)
        # the flag says whether the point is infinity
        if not (inf is F.inf or inf == F.inf):
            i = F.inf
            if not (isinstance(inf, int) and isinstance(i, int)) and self.valid(self.B.b(inf) == self.B.b(i), pc):
                F = Form(F.c, inf)
            elif inf == 0 and self.finite_form(F, pc):
                F = Form(F.c, 0)
            else:
                raise Unsupported("%s: infinity flag %r of the point %r (%r)" % (what, inf, F, i))
        return F, f

    def finite_form(self, F, pc):
        """one finite base point times an odd small integer, or the like"""
        if isinstance(F.inf, int):
            return not F.inf
        if len(F.c) == 1:
            (b, l), = F.c.items()
            t = self.tobv(l)
            if b in self.finite and t is not None and self.lbound(l) < N:
                return self.valid(self.B.z(t, AW) != 0, pc)
        return False

    def retidy(self, st, v):
        """an equal affine value whose coordinates have the recognised form"""
        if len(v) != 3:
            return None
        fin = list(st.pc) + ([tm.not_b(v[2])] if isinstance(v[2], T) else [])
        if v[2] != 0:
            return None
        x, y = (self.lift(q) for q in v[:2])
        a, b = self.parse(x.p), self.parse(y.p)
        if a is None or b is None or a[0] != "X" or b[0] != "Y":
            return None
        F = Form({k: self.canon(l, fin) for k, l in b[1].c.items()}, b[1].inf)
        if F.key() == b[1].key() and F.key() == a[1].key() or not self.equal(a[1], F, fin):
            return None
        return (FE(self.mono("X", F, a[2], a[3]), x.mag, x.norm), FE(self.mono("Y", F, b[2], b[3]), y.mag, y.norm), v[2])

    def jac(self, st, v, what):
        x, y, z = (self.lift(q) for q in v[:3])
        self.pre(z.mag <= MAG, "%s: z of magnitude %s" % (what, z.mag))
        return self.read(st, x, y, z.p, v[3], what) + (z.p,)

    def aff(self, st, v, what, zi=None):
        """an affine value; zi: the inverse of the z it is meant to be read with"""
        x, y = (self.lift(q) for q in v[:2])
        z = const(1)
        if zi is not None:
            p = self.parse(zi.p)
            if p is None or p[0] != "U" or p[3] != 1:
                raise Unsupported("%s: inverse z not recognised: %s" % (what, pstr(zi.p)))
            z = {tuple((v, -e) for v, e in p[2]): 1}
        return self.read(st, x, y, z, v[2], what)

    # ------------------------------------------------------------- writing points
    def point(self, F, f, z=None, mag=MAG):
        """Jacobian value"""
        if not F.c:
            return (FE(self.unknown(), mag), FE(self.unknown(), mag), FE(self.unknown(), mag), 1)
        if z is None:
            v = self.fresh("z")
            self.units.add(v)
            if F.inf != 0:
                self.soft.add(v)
            z = ((v, 1),)
        c = 1
        if isinstance(z, tuple):
            zp = {z: 1}
        else:
            zp = z
            (z, c), = z.items()
        f = f or ()
        pw = lambda m, k: tuple((v, e * k) for v, e in m)
        x = self.mono("X", F, mmul(pw(z, 2), pw(f, 2)), c * c)
        y = self.mono("Y", F, mmul(pw(z, 3), pw(f, 3)), c**3)
        return (FE(x, mag), FE(y, mag), FE(zp, mag), F.inf)

    def affine(self, F, mag=1, norm=0):
        return (FE(self.mono("X", F, ()), mag, norm), FE(self.mono("Y", F, ()), mag, norm), F.inf)

    def stored(self, F):
        return (FS(self.mono("X", F, ())), FS(self.mono("Y", F, ())))


def tvars(t, cache={}):
    if not isinstance(t, T):
        return ()
    r = cache.get(t.id)
    if r is not None and r[0] is t:
        return r[1]
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "var":
            out.append(x)
        st += [y for y in x.a if isinstance(y, T)]
    cache[t.id] = (t, out)
    return out


def gtable(D):
    t = Table()

    def opt(v):
        """None or the target of an Option<&mut Field>"""
        if isinstance(v, E) and isinstance(v.d, int):
            return v.f[v.d][0] if v.d == 1 else None
        if isinstance(v, Ptr):
            return v
        if v == 0 or v is None:
            return None
        raise Unsupported("optional ratio %r" % (v,))

    def frame(fa, fb, what):
        if fa is None:
            return fb
        if fb is None:
            return fa
        if fa != fb:
            raise Unsupported("%s: operands with different denominators: %r / %r" % (what, fa, fb))
        return fa

    def result(eng, st, F, f, za, rz, what):
        if rz is None:
            return D.point(F, f)
        if F.inf != 0:
            raise Unsupported("%s: ratio of a possibly infinite result" % what)
        # the new z is any unit; the ratio is what it is over the old one
        (m, c), = za.items()
        v = D.fresh("z")
        D.units.add(v)
        eng.store(st, rz, FE({mmul(((v, 1),), tuple((u, -e) for u, e in m)): pow(c, -1, P)}, MAG, 0))
        return D.point(F, f, var(v))

    def double(eng, st, a, rz):
        F, f, z = D.jac(st, a, "double")
        if not F.c:
            if rz is not None:
                eng.store(st, rz, FE(const(1), 1, 1))
            return D.point(ZERO, None)
        return result(eng, st, D.fdouble(F), f, z, rz, "double")

    def add(eng, st, a, b, rz, what, finite=False, zi=None, jac=False):
        F, f, z = D.jac(st, a, what)
        if finite:
            D.pre(b[2] == 0, what + ": second operand may be infinity")
        if jac:
            H, h, _ = D.jac(st, b, what)
        else:
            if zi is not None:
                D.pre(zi.mag <= MAG, what + ": inverse z of magnitude %s" % zi.mag)
            H, h = D.aff(st, b, what, zi)
        if rz is not None:
            D.pre(F.inf == 0, what + ": ratio of a sum with infinity")
        return result(eng, st, D.fadd(F, H), frame(f, h, what), z, rz, what)

    def L(eng, st, p):
        return eng.load(st, p)

    @t.on(J + "double_var")
    def dv(eng, st, a, cal):
        return double(eng, st, L(eng, st, a[0]), opt(a[1]))

    @t.on(J + "double_var_in_place")
    def dvi(eng, st, a, cal):
        eng.store(st, a[0], double(eng, st, L(eng, st, a[1]), opt(a[2])))
        return ()

    def pair(name, fn):
        def tidy(eng, st, p):
            """the second operand, rewritten in place by the simpler form it was recognised as"""
            v = L(eng, st, p)
            w = D.retidy(st, v)
            if w is not None:
                eng.store(st, p, w)
                return w
            return v

        @t.on(J + name)
        def byval(eng, st, a, cal):
            return fn(eng, st, L(eng, st, a[0]), tidy(eng, st, a[1]), a[2:])

        @t.on(J + name + "_in_place")
        def inpl(eng, st, a, cal):
            x = L(eng, st, a[1])
            eng.store(st, a[0], fn(eng, st, x, tidy(eng, st, a[2]), a[3:]))
            return ()
    pair("add_var", lambda eng, st, x, y, r: add(eng, st, x, y, opt(r[0]), "add_var", jac=True))
    pair("add_ge_var", lambda eng, st, x, y, r: add(eng, st, x, y, opt(r[0]), "add_ge_var"))
    pair("add_ge", lambda eng, st, x, y, r: add(eng, st, x, y, None, "add_ge", finite=True))
    pair("add_zinv_var", lambda eng, st, x, y, r: add(eng, st, x, y, None, "add_zinv_var", zi=D.lift(L(eng, st, r[0]))))

    @t.on("libsecp256k1::curve::Affine::set_xo_var")
    def xo(eng, st, a, cal):
        """the point with a constant x and the y of the given parity (C10)"""
        x, odd = D.lift(L(eng, st, a[1])), a[2]
        if any(m != () for m in x.p) or not isinstance(odd, int):
            raise Unsupported("decompression of a point that is not constant")
        D.pre(x.mag <= MAG, "set_xo_var: x of magnitude %s" % x.mag)
        v = x.p.get((), 0)
        y = ref.sqrt((v**3 + 7) % P)
        if y is None:
            raise Unsupported("decompression of a constant that is no coordinate")
        if y & 1 != odd:
            y = P - y
        eng.store(st, a[0], (x, FE(const(y), 1, 1), 0))
        return 1

    @t.on(FN + "neg")
    def neg(eng, st, a, cal):
        x = D.lift(L(eng, st, a[0]))
        y = D.tighten(x, a[1], st.pc)
        if y is not x:
            eng.store(st, a[0], y)
        return D.tab.exact[FN + "neg"](eng, st, a, cal)

    @t.on(FN + "neg_in_place")
    def negi(eng, st, a, cal):
        x = D.lift(L(eng, st, a[1]))
        y = D.tighten(x, a[2], st.pc)
        if y is not x:
            eng.store(st, a[1], y)
        return D.tab.exact[FN + "neg_in_place"](eng, st, a, cal)

    @t.on(FN + "cmov")
    def cmov(eng, st, a, cal):
        x, y, f = L(eng, st, a[0]), L(eng, st, a[1]), a[2]
        if isinstance(f, int):
            if f:
                eng.store(st, a[0], y)
            return ()
        r = D.merge(eng, f, y, x)
        if r is None:
            return NotImplemented
        eng.store(st, a[0], r)
        return ()

    @t.on("libsecp256k1::curve::FieldStorage::cmov")
    def scmov(eng, st, a, cal):
        x, y, f = L(eng, st, a[0]), L(eng, st, a[1]), a[2]
        if isinstance(f, int):
            if f:
                eng.store(st, a[0], y)
            return ()
        r = D.merge(eng, f, y, x)
        if r is None:
            return NotImplemented
        eng.store(st, a[0], r)
        return ()

    @t.on("/^<libsecp256k1::curve::FieldStorage as std::convert::Into<libsecp256k1::curve::Field>>::into$",
          "/^<libsecp256k1::curve::Field as std::convert::From<libsecp256k1::curve::FieldStorage>>::from$")
    def load(eng, st, a, cal):
        return FE(D.fsp(a[0]), 1, 1)
    return t
