"""Group operations: the real code of the point formulas over field elements that are polynomials
modulo p (the field operations by the contracts that the L1 lemmas establish on the limb code)."""
import z3
from . import terms as tm, mir, execu, gen, ref
from .framework import lemma
from .mir import Ptr, E
from .ref import P, N
from .fdom import Dom, FE, FS, var, const, pmul, padd, psub, ppow

G = "libsecp256k1::curve::"
J = G + "Jacobian::"
A = G + "Affine::"
MAG = 8          # every coordinate of a point handed from one operation to the next
ASSUME = ("field operations by contract (C01-C04 lemmas: magnitude <= 8 products, <= 31 reductions)",
          "p is prime; x^3 = -7 has no solution and y^2 = x^3 + 7 has none with y = 0 (checked arithmetically on every run)")

assert pow(P - 7, (P - 1) // 3, P) != 1, "x^3 = -7 solvable: points with y = 0"
assert pow(7, (P - 1) // 2, P) != 1, "7 is a square: points with x = 0"
BETA = gen.BETA
assert BETA != 1 and pow(BETA, 3, P) == 1

CASES = ("gen", "beta", "beta2", "eq", "neg", "infA", "infB", "infAB")


def curve_rhs(x):
    return padd(ppow(x, 3), const(7))


class World:
    """two points of a curve y^2 = x^3 + 7 f^6 (f any unit: the curve itself and its isomorphic
    copies that share one z) in one of the cases; a = (x1 z1^2, y1 z1^3, z1) and so on"""

    def __init__(self, case, mag=MAG, iso=False):
        self.case = case
        self.mag = mag
        d = self.d = Dom()
        d.units |= {"x1", "y1", "z1", "z2", "f"}
        d.rules["y1"] = (2, curve_rhs(var("x1")))
        f2 = ppow(var("f"), 2) if iso else const(1)
        f3 = ppow(var("f"), 3) if iso else const(1)
        self.x1, self.y1 = pmul(var("x1"), f2), pmul(var("y1"), f3)
        self.infA = case in ("infA", "infAB")
        self.infB = case in ("infB", "infAB")
        if case in ("gen", "infA", "infB", "infAB"):
            d.units |= {"x2", "y2"}
            d.rules["y2"] = (2, curve_rhs(var("x2")))
            self.x2, self.y2 = pmul(var("x2"), f2), pmul(var("y2"), f3)
            if case == "gen":
                d.nonzero += [psub(var("x2"), var("x1")), padd(var("y1"), var("y2"))]
        elif case in ("beta", "beta2"):
            b = BETA if case == "beta" else BETA * BETA % P
            self.x2, self.y2 = pmul(self.x1, const(b)), pmul(self.y1, const(-1))
        elif case == "eq":
            self.x2, self.y2 = self.x1, self.y1
        elif case == "neg":
            self.x2, self.y2 = self.x1, pmul(self.y1, const(-1))
        self.junk = 0

    def sub(self, p, sub):
        r = {}
        for m, c in p.items():
            t = const(c)
            for v, e in m:
                t = pmul(t, ppow(sub[v], e) if v in sub else {((v, e),): 1})
            r = padd(r, t)
        return r

    def fe(self, p, mag=None):
        return FE(self.d.reduce(p), mag or self.mag, 0)

    def j(self, which, z=None):
        """Jacobian form of the point"""
        d = self.d
        inf = self.infA if which == 1 else self.infB
        x, y = (self.x1, self.y1) if which == 1 else (self.x2, self.y2)
        z = z or var("z%d" % which)
        if inf:
            return self.junkj(1)
        return (self.fe(pmul(x, pmul(z, z))), self.fe(pmul(y, ppow(z, 3))), self.fe(z), 1 if inf else 0)

    def a(self, which):
        inf = self.infA if which == 1 else self.infB
        x, y = (self.x1, self.y1) if which == 1 else (self.x2, self.y2)
        if inf:
            return (self.jk(), self.jk(), 1)
        return (self.fe(x), self.fe(y), 0)

    def jk(self):
        self.junk += 1
        return FE(var("junk%d" % self.junk), self.mag, 0)

    def junkj(self, inf=0):
        return (self.jk(), self.jk(), self.jk(), inf)

    def expected(self):
        """None: infinity; else (D, X3n, Y3n) with sum = (X3n / D^2, Y3n / D^3)"""
        c = self.case
        if c in ("neg", "infAB"):
            return None
        if c == "infA":
            return const(1), self.x2, self.y2
        if c == "infB":
            return const(1), self.x1, self.y1
        if c == "eq":
            D, Nn = pmul(const(2), self.y1), pmul(const(3), pmul(self.x1, self.x1))
        else:
            D, Nn = psub(self.x2, self.x1), psub(self.y2, self.y1)
        D2 = pmul(D, D)
        X = psub(pmul(Nn, Nn), pmul(padd(self.x1, self.x2), D2))
        Y = psub(pmul(Nn, psub(pmul(self.x1, D2), X)), pmul(self.y1, pmul(D2, D)))
        r = self.d.reduce
        return D, r(X), r(Y)


def feasible(cx, B, st):
    return B.check(list(st.pc))[0] != "unsat"


def zeros(cx, d, name, p, cands=()):
    r = d.reduce(p)
    a = d.zero(r)
    cx.result(name, "unsat" if a == "unsat" else "unknown", cands, detail="difference " + str(len(r)) + " terms")


def point_is(cx, d, name, out, exp, mag=MAG, check_mag=True):
    """out: Jacobian value; exp: None or (D, X, Y)"""
    x, y, z, inf = out
    if not isinstance(inf, int):
        cx.result(name + ": infinity flag", "unknown", detail="symbolic flag")
        return
    cx.true(name + ": infinity flag", inf == (1 if exp is None else 0))
    if check_mag:
        ms = [d.lift(v).mag for v in (x, y, z)]
        cx.true(name + ": coordinates within magnitude %d" % mag, all(m <= mag for m in ms), detail=str(ms))
    if exp is None or inf:
        return
    D, X, Y = exp
    x, y, z = (d.lift(v).p for v in (x, y, z))
    z2, D2 = pmul(z, z), pmul(D, D)
    zeros(cx, d, name + ": x coordinate", psub(pmul(x, D2), pmul(X, z2)))
    zeros(cx, d, name + ": y coordinate", psub(pmul(y, pmul(D2, D)), pmul(Y, pmul(z2, z))))
    cx.true(name + ": z is not zero", d.decide(z) is False)


def run(cx, W, name, args, objs):
    """run the real function; objs: heap values, args: ints index objs as pointers, others by value"""
    eng = cx.engine(W.d.tab)
    st = execu.State()
    ks = [eng.new_heap(st, o) for o in objs]
    av = [Ptr(ks[x[0]]) if isinstance(x, list) else x for x in args]
    res = cx.call(eng, st, name, av)
    B = cx.bv()
    out = [(s, rv, [s.mem[k] for k in ks]) for s, rv in res if feasible(cx, B, s)]
    cx.no_panics(name, eng)
    if not out:
        cx.result(name, "unknown", detail="no final state")
    return out


def opt(ptr):
    return E(1, {1: (ptr,)}) if ptr is not None else E(0, {})


def rzr_ok(cx, W, name, az, out, rz):
    """r.z = a.z * rzr, an infinite result counting as z = 0"""
    z = {} if out[3] == 1 else W.d.lift(out[2]).p
    zeros(cx, W.d, name + ": r.z = a.z * rzr", psub(z, pmul(az, W.d.lift(rz).p)))
    cx.true(name + ": rzr within magnitude %d" % MAG, W.d.lift(rz).mag <= MAG)


# ------------------------------------------------------------------ batteries
def _z(rng):
    return rng.choice([1, 1, 2, P - 1, rng.randrange(1, P), rng.randrange(1, P)])


def bat_double(cx):
    out = []
    for p in {p for q in gen.pairs(cx.rng, 60) for p in q}:
        for op in ("j_double", "j_double_nonzero", "j_double_v"):
            for rz in (0, 1):
                if p is None and op == "j_double_nonzero":
                    continue
                out.append("%s %d %s" % (op, rz, gen.jac_tok(p, _z(cx.rng), cx.rng)))
    return out


def bat_addvar(cx):
    out = []
    for p, q in gen.pairs(cx.rng, 120):
        for op in ("j_add_var", "j_add_v"):
            for rz in (0, 1):
                if rz and p is None:
                    continue
                out.append("%s %d %s %s" % (op, rz, gen.jac_tok(p, _z(cx.rng), cx.rng), gen.jac_tok(q, _z(cx.rng), cx.rng)))
    return out


def bat_addgevar(cx):
    out = []
    for p, q in gen.pairs(cx.rng, 120):
        for op in ("j_add_ge_var", "j_add_ge_var_v"):
            for rz in (0, 1):
                if rz and p is None:
                    continue
                out.append("%s %d %s %s" % (op, rz, gen.jac_tok(p, _z(cx.rng), cx.rng), gen.aff_tok(q, cx.rng, 1)))
    return out


def bat_addge(cx):
    return ["%s %s %s" % (op, gen.jac_tok(p, _z(cx.rng), cx.rng), gen.aff_tok(q, cx.rng, 1))
            for p, q in gen.pairs(cx.rng, 160) if q is not None for op in ("j_add_ge", "j_add_ge_v")]


def bat_zinv(cx):
    out = []
    for p, q in gen.pairs(cx.rng, 160):
        z = _z(cx.rng)
        if q is None:
            b = gen.aff_tok(None, cx.rng)
        else:
            b = "%s %s 0" % (gen.fe_any(cx.rng, q[0] * z * z), gen.fe_any(cx.rng, q[1] * z**3))
        for op in ("j_add_zinv",):
            out.append("%s %s %s %s" % (op, gen.jac_tok(p, _z(cx.rng), cx.rng), b, gen.n_tok(pow(z, -1, P))))
    return out


# ------------------------------------------------------------------ C09
@lemma("G.double", "every finite point in every Jacobian scaling with coordinates of magnitude <= 8; infinity", bat_double, ASSUME)
def g_double(cx):
    for inf in (0, 1):
        for nm in ("double_var_in_place", "double_nonzero_in_place", "double_var"):
            if inf and "nonzero" in nm:
                continue
            for rz in (0, 1):
                W = World("infAB" if inf else "eq", iso=True)
                objs = [W.junkj(), W.j(1), W.jk()]
                rp = opt(Ptr(None)) if rz else None
                eng = cx.engine(W.d.tab)
                st = execu.State()
                ks = [eng.new_heap(st, o) for o in objs]
                rp = opt(Ptr(ks[2]) if rz else None)
                t = "%s%s%s" % (nm, " of infinity" if inf else "", " with ratio" if rz else "")
                args = [Ptr(ks[1]), rp] if nm == "double_var" else [Ptr(ks[0]), Ptr(ks[1]), rp]
                for s, rv in cx.call(eng, st, J + nm, args):
                    out = rv if nm == "double_var" else s.mem[ks[0]]
                    point_is(cx, W.d, t, out, W.expected())
                    if rz:
                        rzr_ok(cx, W, t, {} if inf else var("z1"), out, s.mem[ks[2]])
                cx.no_panics(t, eng)
                W.d.pre_ok(cx, t + ": preconditions of the field operations")


def add_lemma(name, fns, bfn, bat, extra=()):
    @lemma(name, "all pairs of curve points (different x; x and y related by the endomorphism with opposite y; equal; opposite; either or both infinite), "
           "every Jacobian scaling, coordinates of magnitude <= 8", bat, ASSUME + tuple(extra))
    def f(cx):
        for nm in fns:
            hasr = "zinv" not in nm and "add_ge" not in nm.replace("add_ge_var", "")
            for case in CASES:
                if case in ("infB", "infAB") and "add_ge" in nm and "var" not in nm:
                    continue
                for rz in ((0, 1) if hasr and case not in ("infA", "infAB") else (0,)):
                    W = World(case, iso=True)
                    eng = cx.engine(W.d.tab)
                    st = execu.State()
                    b, xtra = bfn(W)
                    byval = not nm.endswith("in_place")
                    ks = [eng.new_heap(st, o) for o in [W.junkj(), W.j(1), b, W.jk()] + xtra]
                    args = [Ptr(ks[1]), Ptr(ks[2])]
                    if hasr:
                        args.append(opt(Ptr(ks[3]) if rz else None))
                    args += [Ptr(k) for k in ks[4:]]
                    if not byval:
                        args = [Ptr(ks[0])] + args
                    t = "%s, %s%s" % (nm, case, " with ratio" if rz else "")
                    B = cx.bv()
                    n = 0
                    for s, rv in cx.call(eng, st, J + nm, args):
                        if not feasible(cx, B, s):
                            continue
                        n += 1
                        out = rv if byval else s.mem[ks[0]]
                        point_is(cx, W.d, t, out, W.expected())
                        if rz:
                            rzr_ok(cx, W, t, var("z1"), out, s.mem[ks[3]])
                    cx.true(t + ": returns", n > 0)
                    cx.no_panics(t, eng)
                    W.d.pre_ok(cx, t + ": preconditions of the field operations")
    return f


add_lemma("G.add", ("add_var_in_place", "add_var"), lambda W: (W.j(2), []), bat_addvar)
add_lemma("G.add_ge_var", ("add_ge_var_in_place", "add_ge_var"), lambda W: (W.a(2), []), bat_addgevar)
add_lemma("G.add_ge", ("add_ge_in_place", "add_ge"), lambda W: (W.a(2), []), bat_addge)


def zinv_b(W):
    """b = (x2 z2^2, y2 z2^3) given with 1 / z2: the point it stands for is (x2, y2)"""
    if W.infB:
        return (W.jk(), W.jk(), 1), [W.jk()]
    z = var("z2")
    zi = {(("z2", -1),): 1}
    return (W.fe(pmul(W.x2, pmul(z, z))), W.fe(pmul(W.y2, ppow(z, 3))), 0), [W.fe(zi)]


add_lemma("G.add_zinv", ("add_zinv_var_in_place", "add_zinv_var"), zinv_b, bat_zinv)


# ------------------------------------------------------------------ C10
def aff_is(cx, d, name, out, X, Y, mag=MAG):
    x, y, inf = out
    cx.true(name + ": infinity flag", inf == (1 if X is None else 0), detail=repr(inf))
    cx.true(name + ": coordinates within magnitude %d" % mag, all(d.lift(v).mag <= mag for v in (x, y)))
    if X is None:
        return
    zeros(cx, d, name + ": x", psub(d.lift(x).p, X))
    zeros(cx, d, name + ": y", psub(d.lift(y).p, Y))


def bat_conv(cx):
    out = []
    pts = list({p for q in gen.pairs(cx.rng, 60) for p in q})
    for p in pts:
        for op in ("a_set_gej", "a_from_gej", "a_set_gej_var"):
            out.append("%s %s" % (op, gen.jac_tok(p, _z(cx.rng), cx.rng)))
        z = _z(cx.rng)
        out.append("a_set_gej_zinv %s %s" % (gen.jac_tok(p, z, cx.rng), gen.n_tok(pow(z, -1, P))))
        out.append("j_set_ge " + gen.aff_tok(p, cx.rng, 1))
        out.append("j_neg " + gen.jac_tok(p, _z(cx.rng), cx.rng))
        out.append("a_neg " + gen.aff_tok(p, cx.rng, 1))
        if p is not None:
            out.append("j_rescale %s %s" % (gen.jac_tok(p, _z(cx.rng), cx.rng), gen.n_tok(_z(cx.rng))))
            out.append("a_store " + gen.aff_tok(p, cx.rng, 1))
            out.append("a_load %064x %064x" % p)
        out.append("j_set_infinity " + gen.jac_tok(p, _z(cx.rng), cx.rng))
        q = cx.rng.choice(pts)
        for a, b in ((p, p), (p, q), (p, ref.neg(p)), (p, p and (p[0] * BETA % P, p[1]))):
            if a is not None and b is not None:
                out.append("a_eq %s %s" % (gen.aff_tok(a, cx.rng, 1), gen.aff_tok(b, cx.rng, 1)))
    for f in (0, 1):
        out.append("as_cmov %d %s" % (f, " ".join("%064x" % cx.rng.getrandbits(256) for _ in range(4))))
    return out


@lemma("G.convert", "every finite point in every scaling and infinity; coordinates of magnitude <= 8 (unreduced included)", bat_conv, ASSUME)
def g_convert(cx):
    for inf in (0, 1):
        for nm in ("set_gej", "set_gej_var", "from_gej", "set_gej_zinv"):
            W = World("infA" if inf else "infB")
            w = " of infinity" if inf else ""
            zi = W.fe({(("z1", -1),): 1}) if not inf else W.jk()
            args = {"from_gej": [[1]], "set_gej_zinv": [[0], [1], [2]]}.get(nm, [[0], [1]])
            for s, rv, m in run(cx, W, A + nm, args, [(W.jk(), W.jk(), 0), W.j(1), zi]):
                aff_is(cx, W.d, nm + w, rv if nm == "from_gej" else m[0], *((None, None) if inf else (W.x1, W.y1)))
            W.d.pre_ok(cx, nm + w + ": preconditions")
        for nm in ("set_ge", "from_ge"):
            W = World("infA" if inf else "infB")
            for s, rv, m in run(cx, W, J + nm, [[1]] if nm == "from_ge" else [[0], [1]], [W.junkj(), W.a(1)]):
                point_is(cx, W.d, nm + (" of infinity" if inf else ""), rv if nm == "from_ge" else m[0],
                         None if inf else (const(1), W.x1, W.y1))
            W.d.pre_ok(cx, nm + ": preconditions")
        for nm in ("neg", "neg_in_place"):
            W = World("infA" if inf else "infB")
            for s, rv, m in run(cx, W, J + nm, [[1]] if nm == "neg" else [[0], [1]], [W.junkj(), W.j(1)]):
                point_is(cx, W.d, "Jacobian " + nm, rv if nm == "neg" else m[0], None if inf else (const(1), W.x1, pmul(W.y1, const(-1))))
            W.d.pre_ok(cx, nm + ": preconditions")
            W = World("infA" if inf else "infB")
            for s, rv, m in run(cx, W, A + nm, [[1]] if nm == "neg" else [[0], [1]], [(W.jk(), W.jk(), 0), W.a(1)]):
                aff_is(cx, W.d, "Affine " + nm, rv if nm == "neg" else m[0], *((None, None) if inf else (W.x1, pmul(W.y1, const(-1)))))
            W.d.pre_ok(cx, nm + ": preconditions")
    W = World("infB")
    W.d.units.add("w")
    for s, rv, m in run(cx, W, J + "rescale", [[0], [1]], [W.j(1), FE(var("w"), MAG, 0)]):
        point_is(cx, W.d, "rescale", m[0], (const(1), W.x1, W.y1))
        zeros(cx, W.d, "rescale: z", psub(W.d.lift(m[0][2]).p, pmul(var("w"), var("z1"))))
    W.d.pre_ok(cx, "rescale: preconditions")
    W = World("infB")
    for s, rv, m in run(cx, W, J + "set_infinity", [[0]], [W.j(1)]):
        cx.true("set_infinity: flag", m[0][3] == 1)
    # storage
    W = World("infB")
    nm = cx.find("<%sAffine as std::convert::Into<%sAffineStorage>>::into" % (G, G), "<%sAffineStorage as std::convert::From<%sAffine>>::from" % (G, G))
    eng = cx.engine(W.d.tab)
    for s, rv in eng.run_fn(execu.State(), cx.P.fn(nm), [W.a(1)]):
        cx.true("storing: storage form", all(isinstance(v, FS) for v in rv))
        zeros(cx, W.d, "storing: x", psub(rv[0].p, W.x1))
        zeros(cx, W.d, "storing: y", psub(rv[1].p, W.y1))
    cx.no_panics("storing", eng)
    W.d.pre_ok(cx, "storing: preconditions")
    nm = cx.find("<%sAffine as std::convert::From<%sAffineStorage>>::from" % (G, G), "<%sAffineStorage as std::convert::Into<%sAffine>>::into" % (G, G))
    eng = cx.engine(W.d.tab)
    for s, rv in eng.run_fn(execu.State(), cx.P.fn(nm), [(FS(W.x1), FS(W.y1))]):
        aff_is(cx, W.d, "loading", rv, W.x1, W.y1)
    cx.no_panics("loading", eng)
    # conditional move of storage, on the words themselves
    B = cx.bv()
    mk = lambda n: tuple(((tuple(tm.var("%s%s%d" % (n, c, i), 32) for i in range(8)),)) for c in "xy")
    a, b, f = mk("a"), mk("b"), tm.var("f", 1)
    eng = cx.engine()
    st = execu.State()
    ka, kb = eng.new_heap(st, a), eng.new_heap(st, b)
    s, rv = cx.one(cx.call(eng, st, G + "AffineStorage::cmov", [Ptr(ka), Ptr(kb), f]))
    o = s.mem[ka]
    rp = lambda env: ["as_cmov %d %s" % (env.get("f", 0), " ".join("".join("%08x" % env.get("%s%s%d" % (n, c, i), 0) for i in range(7, -1, -1)) for n in "ab" for c in "xy"))]
    cx.valid("AffineStorage::cmov selects", B, z3.And([B.z(o[c][0][i], 32) == z3.If(B.b(f), B.z(b[c][0][i], 32), B.z(a[c][0][i], 32)) for c in (0, 1) for i in range(8)]), mk=rp)


def truth(B, d, p):
    return d.zero_test(d.reduce(p))


def decided(cx, B, name, states, want):
    """on every path the returned flag is `want`; the paths cover everything"""
    for s, rv in states:
        cx.valid(name, B, B.b(rv) == B.b(want), list(s.pc))
    cov = z3.BoolVal(False)
    for s, rv in states:
        cov = z3.Or(cov, z3.And([B.b(c) for c in s.pc] + [z3.BoolVal(True)]))
    cx.valid(name + ": defined for every input", B, cov)


def bat_tests(cx):
    out = []
    pts = list({p for q in gen.pairs(cx.rng, 60) for p in q if p is not None})
    for p in pts:
        out.append("j_eq_x %s %s" % (gen.jac_tok(p, _z(cx.rng), cx.rng), gen.fe_any(cx.rng, p[0])))
        out.append("j_eq_x %s %s" % (gen.jac_tok(p, _z(cx.rng), cx.rng), gen.fe_any(cx.rng, p[0] + 1)))
        out.append("j_eq_x %s %s" % (gen.jac_tok(p, _z(cx.rng), cx.rng), gen.fe_any(cx.rng, p[0] * BETA)))
        out.append("j_quad_y " + gen.jac_tok(p, _z(cx.rng), cx.rng))
        out.append("j_quad_y " + gen.jac_tok(ref.neg(p), _z(cx.rng), cx.rng))
        out.append("a_valid " + gen.aff_tok(p, cx.rng, 1))
        out.append("a_valid " + gen.aff_tok((p[0], (p[1] + 1) % P), cx.rng, 1))
        out.append("a_valid " + gen.aff_tok((p[1], p[0]), cx.rng, 1))
        out.append("a_valid " + gen.aff_tok(p, cx.rng, 1)[:-1] + "1")
    # points of the other curves y^2 = x^3 + b, and x = 0 / y = 0
    for v in gen.fe_norm(cx.rng, 50):
        for k in (0, 1):
            out.append("a_set_xo %d %s" % (k, gen.n_tok(v)))
        out.append("a_set_xquad " + gen.n_tok(v))
        out.append("a_set_xquad " + gen.fe_any(cx.rng, v))
        out.append("a_valid %s %s 0" % (gen.n_tok(v), gen.n_tok(0)))
        for b in (0, 1, 2, 3, 5, 6, 8, -7, 14, 49):
            y = ref.sqrt((v**3 + b) % P)
            if y is not None:
                out.append("a_valid %s %s 0" % (gen.fe_any(cx.rng, v), gen.fe_any(cx.rng, y)))
    out.append("j_quad_y " + gen.jac_tok(None, 1))
    return out


@lemma("G.tests", "every point and field element, every scaling, magnitude <= 8 (1 for the compared x)", bat_tests, ASSUME)
def g_tests(cx):
    # x comparison
    W = World("infB")
    d = W.d
    B = cx.bv()
    res = [(s, rv) for s, rv, m in run(cx, W, J + "eq_x_var", [[0], [1]], [W.j(1), FE(var("c"), MAG, 0)])]
    decided(cx, B, "eq_x_var: true exactly when the x coordinate is the given value", res, d.zero_test(psub(W.x1, var("c"))))
    d.pre_ok(cx, "eq_x_var: preconditions")
    # quadratic-residue test of y
    for inf in (0, 1):
        W = World("infA" if inf else "infB")
        B = cx.bv()
        res = [(s, rv) for s, rv, m in run(cx, W, J + "has_quad_y_var", [[0]], [W.j(1)])]
        decided(cx, B, "has_quad_y_var", res, 0 if inf else W.d.square_test(W.y1))
        W.d.pre_ok(cx, "has_quad_y_var: preconditions")
    # on-curve test of arbitrary coordinates
    for inf in (0, 1):
        W = World("infB")
        d = W.d
        B = cx.bv()
        res = [(s, rv) for s, rv, m in run(cx, W, A + "is_valid_var", [[0]], [(FE(var("u"), MAG, 0), FE(var("v"), MAG, 0), inf)])]
        want = d.zero_test(psub(pmul(var("v"), var("v")), curve_rhs(var("u"))))
        decided(cx, B, "is_valid_var: true exactly on the curve" + (" (infinity: never)" if inf else ""), res, 0 if inf else want)
        d.pre_ok(cx, "is_valid_var: preconditions")
    # equality of finite affine points
    for nm in ("<%sAffine as std::cmp::PartialEq>::eq" % G,):
        W = World("infB")
        d = W.d
        B = cx.bv()
        pa, pb = ((FE(var(n + "x"), MAG, 0), FE(var(n + "y"), MAG, 0), 0) for n in "ab")
        res = [(s, rv) for s, rv, m in run(cx, W, nm, [[0], [1]], [pa, pb])]
        want = tm.and_(1, d.zero_test(psub(var("ax"), var("bx"))), d.zero_test(psub(var("ay"), var("by"))))
        decided(cx, B, "equality of affine points", res, want)
        d.pre_ok(cx, "equality: preconditions")


@lemma("G.lift", "every x (any magnitude <= 8), both parities", bat_tests, ASSUME + ("y^2 = x^3 + 7 is solvable iff x^3 + 7 is a square; -1 is not a square (p = 3 mod 4)",))
def g_lift(cx):
    for nm, odd in (("set_xquad", None), ("set_xo_var", 0), ("set_xo_var", 1)):
        W = World("infB")
        d = W.d
        d.nonzero.append(curve_rhs(var("u")))
        B = cx.bv()
        args = [[0], [1]] + ([odd] if odd is not None else [])
        res = run(cx, W, A + nm, args, [(W.jk(), W.jk(), tm.var("inf", 1)), FE(var("u"), MAG, 0)])
        t = nm + ("" if odd is None else "(odd)" if odd else "(even)")
        sq = d.square_test(curve_rhs(var("u")))
        decided(cx, B, t + ": succeeds exactly when x^3 + 7 is a square", [(s, rv) for s, rv, m in res], sq)
        for s, rv, m in res:
            if B.check(list(s.pc) + [B.b(rv)])[0] == "unsat":
                continue
            x, y, inf = m[0]
            pc = list(s.pc) + [B.b(rv)]
            cx.valid(t + ": lifted point is finite", B, z3.Not(B.b(inf)), pc)
            zeros(cx, d, t + ": x", psub(d.lift(x).p, var("u")))
            yp = d.lift(y).p
            zeros(cx, d, t + ": the point is on the curve", psub(pmul(yp, yp), curve_rhs(var("u"))))
            cx.true(t + ": magnitudes", d.lift(x).mag <= MAG and d.lift(y).mag <= MAG)
            if odd is None:
                cx.true("set_xquad: y is the root that is a square", len(yp) == 1 and list(yp.values()) == [1] and next(iter(yp))[0][0] in d.roots and
                        next(iter(yp))[0][1] == 1)
            else:
                cx.valid(t + ": parity of y", B, B.b(d.parity(d.reduce(yp))) == bool(odd), pc)
        d.pre_ok(cx, t + ": preconditions")
