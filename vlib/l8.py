"""C34: no branch, address or variable-time call depends on a secret.

Three levels.  X.leaf: the scalar and field operations on symbolic words.  X.mul: the point
operations and the two constant-time multiplications, with arbitrary (secret) results for the
scalar and field operations X.leaf covers.  X.top: signing, key derivation and ECDH over abstract
scalars, fields and points, where what the caller learns anyway is public."""
import re
import z3
from . import terms as tm, execu, mir, ref, gen, ct, stdov
from .terms import T
from .mir import Ptr, E, UNDEF, Unsupported
from .execu import Table, Outcomes, Abstract
from .framework import lemma
from .ref import P, N

G = "libsecp256k1::curve::"
ST, FT, QT = G + "Scalar", G + "Field", G + "FieldStorage"
OPS = "std::ops::"


def sec32(nm, i, hi=None):
    return tm.var("~%s%d" % (nm, i), 32, 0, hi)


def scalar(nm):
    return (tuple(sec32(nm, i) for i in range(8)),)


def felem(nm):
    return (tuple(sec32(nm, i, gen.limb_max(i, 1)) for i in range(10)), 1, 0)


def hexs(vals, w):
    return "".join("%0*x" % (w, v) for v in vals)


def sc_tok(v):
    return "%064x" % v


def fe_tok(v):
    """normalised limbs of an integer, most significant first"""
    return hexs([(v >> (26 * i)) & 0x3ffffff for i in range(9, -1, -1)], 8)


def fs_tok(v):
    return "%064x" % v


# name -> (functions, argument kinds).  s/S scalar (pointer/value), f/F field, g/G stored field,
# h stored point, o/O/Z outputs, b flag, c Choice, B bytes; integers are public arguments
LEAF = {}


def leaf(op, kinds, *names):
    LEAF[op] = (names, kinds.split())


S, F = ST + "::", FT + "::"
leaf("s_add", "s s", "<&%s as %sAdd>::add" % (ST, OPS))
leaf("s_add_assign", "s s", "<%s as %sAddAssign<&%s>>::add_assign" % (ST, OPS, ST))
leaf("s_mul", "s s", "<&%s as %sMul>::mul" % (ST, OPS))
leaf("s_mul_assign", "s s", "<%s as %sMulAssign<&%s>>::mul_assign" % (ST, OPS, ST))
leaf("s_mul_in_place", "o s s", S + "mul_in_place")
leaf("s_sqr", "s", S + "sqr")
leaf("s_sqr_in_place", "o s", S + "sqr_in_place")
leaf("s_neg", "s", "<&%s as %sNeg>::neg" % (ST, OPS))
leaf("s_neg_value", "S", "<%s as %sNeg>::neg" % (ST, OPS))
leaf("s_cond_neg_assign", "s c", S + "cond_neg_assign")
leaf("s_cadd_bit", "s 5 b", S + "cadd_bit")
leaf("s_shr_int", "s 4", S + "shr_int")
leaf("s_bits", "s 8 4", S + "bits")
leaf("s_set_b32", "o B", S + "set_b32")
leaf("s_b32", "s", S + "b32")
leaf("s_fill_b32", "s Z", S + "fill_b32")
for n in ("is_zero", "is_one", "is_high", "is_even", "clear"):
    leaf("s_" + n, "s", S + n)
leaf("s_inv", "s", S + "inv")
leaf("s_inv_in_place", "o s", S + "inv_in_place")
leaf("f_add", "F F", "<%s as %sAdd>::add" % (FT, OPS))
leaf("f_add_ref", "f f", "<&%s as %sAdd>::add" % (FT, OPS))
leaf("f_add_assign", "f f", "<%s as %sAddAssign<&%s>>::add_assign" % (FT, OPS, FT))
leaf("f_mul", "F F", "<%s as %sMul>::mul" % (FT, OPS))
leaf("f_mul_ref", "f f", "<&%s as %sMul>::mul" % (FT, OPS))
leaf("f_mul_assign", "f f", "<%s as %sMulAssign<&%s>>::mul_assign" % (FT, OPS, FT))
leaf("f_mul_in_place", "O f f", F + "mul_in_place")
leaf("f_sqr", "f", F + "sqr")
leaf("f_sqr_in_place", "O f", F + "sqr_in_place")
leaf("f_neg", "f 1", F + "neg")
leaf("f_neg_in_place", "O f 1", F + "neg_in_place")
leaf("f_mul_int", "f 3", F + "mul_int")
for n in ("normalize", "normalize_weak", "normalizes_to_zero", "is_odd", "is_zero", "clear", "b32", "inv"):
    leaf("f_" + n, "f", F + n)
leaf("f_fill_b32", "f Z", F + "fill_b32")
leaf("f_cmov", "f f b", F + "cmov")
leaf("f_from", "G", "<%s as std::convert::From<%s>>::from" % (FT, QT))
leaf("f_into", "F", "<%s as std::convert::Into<%s>>::into" % (FT, QT))
leaf("fs_cmov", "g g b", QT + "::cmov")
leaf("as_cmov", "h h b", G + "AffineStorage::cmov")
# not used with secrets by the code as it is; decided only when they are
VAR = {}
for n in ("normalize_var", "normalizes_to_zero_var", "inv_var"):
    VAR["f_" + n] = ((F + n,), ["f"])
VAR["s_inv_var"] = ((S + "inv_var",), ["s"])
HEAVY = {"s_inv", "s_inv_in_place", "f_inv", "f_inv_var", "s_inv_var"}
OUT = {"o": 1, "O": 1, "Z": 1}


def operand(eng, st, k, i):
    """(value passed, kind for printing)"""
    nm = "abcd"[i]
    if k.isdigit():
        return int(k)
    low = k.lower()
    if k == "o":
        return Ptr(eng.new_heap(st, ((0,) * 8,)))
    if k == "O":
        return Ptr(eng.new_heap(st, ((0,) * 10, 0, 1)))
    if k == "Z":
        return Ptr(eng.new_heap(st, (0,) * 32))
    if k == "b":
        return tm.var("~%s0" % nm, 1)
    if k == "c":
        return (tm.var("~%s0" % nm, 8, 0, 1),)
    if k == "B":
        return Ptr(eng.new_heap(st, tuple(tm.var("~%s%d" % (nm, j), 8) for j in range(32))))
    if low == "s":
        v = scalar(nm)
    elif low == "g":
        v = scalar(nm)
    elif low == "f":
        v = felem(nm)
    elif low == "h":
        v = (scalar(nm), scalar(nm + "y"))
    return Ptr(eng.new_heap(st, v)) if k == low else v


def token(env, k, i, q=""):
    nm = "abcd"[i]
    g = lambda j, n=nm: env.get("~%s%d%s" % (n, j, q), 0)
    low = k.lower()
    if k.isdigit() or k in OUT:
        return None
    if k in "bc":
        return "%x" % (g(0) & 1)
    if k == "B":
        return hexs([g(j) for j in range(32)], 2)
    if low in "sg":
        return hexs([g(j) for j in range(7, -1, -1)], 8)
    if low == "f":
        return hexs([g(j) for j in range(9, -1, -1)], 8)
    if low == "h":
        return hexs([g(j) for j in range(7, -1, -1)], 8) + " " + hexs([g(j, nm + "y") for j in range(7, -1, -1)], 8)


def line(op, kinds, secrets):
    """secrets: list of token lists; the program reads arguments in order, so public integers are
    repeated with each secret"""
    return "ct %s / %s" % (op, " / ".join(" ".join(s) for s in secrets))


def fill(op, kinds, toks):
    """the argument list of the program: public integers in their places"""
    out = []
    for k, t in zip(kinds, toks):
        if k.isdigit():
            if op in ("s_cadd_bit", "s_shr_int", "s_bits"):
                out.append("%x" % int(k))
        elif t is not None:
            out.append(t)
    return out


def battery(op, kinds, rng):
    """secrets near the corners"""
    fes = [0, 1, P - 1, P, 2**256 - 1, 2, P // 2] + [rng.randrange(P) for _ in range(4)]
    scs = [0, 1, N - 1, N - 2, N // 2, N // 2 + 1, 2**255, N // 2 + 3, 5] + [rng.randrange(N) for _ in range(4)]
    secs = []
    for k in range(24):
        t = []
        for q in kinds:
            low = q.lower()
            if q.isdigit() or q in OUT:
                t.append(None)
            elif q in "bc":
                t.append(str(k & 1))
            elif q == "B":
                t.append("%064x" % rng.choice(scs + [N, N + 1, 2**256 - 1]))
            elif low == "s":
                t.append(sc_tok(scs[k] if k < len(scs) and q is kinds[0] else rng.choice(scs)))
            elif low == "g":
                t.append(fs_tok(rng.choice(fes) % P))
            elif low == "f":
                t.append(fe_tok(fes[k] if k < len(fes) and q is kinds[0] else rng.choice(fes)))
            elif low == "h":
                t.append(fs_tok(rng.choice(fes) % P) + " " + fs_tok(rng.choice(fes) % P))
        secs.append(fill(op, kinds, t))
    return line(op, kinds, secs)


def run_leaf(cx, op, names, kinds, extra=()):
    """one operation on symbolic words"""
    eng = cx.engine(*extra, feas=None)
    eng.ct = ct.CT()
    st = execu.State()
    args = [operand(eng, st, k, i) for i, k in enumerate(kinds)]
    B = cx.bv(20000)

    def mk(env):
        return [line(op, kinds, [fill(op, kinds, [token(env, k, i, q) for i, k in enumerate(kinds)]) for q in ("", "'")]), battery(op, kinds, cx.rng)]
    done = 0
    for n in names:
        try:
            cx.P.find(n)
        except Exception:
            continue
        done += 1
        cx.call(eng, st, n, args)
    if not done:
        cx.notes.append("%s: no such function in this tree" % op)
        return
    ct.decide(cx, op, eng, B, mk, native=op not in HEAVY)


def varlines(cx):
    """where (part of a name) -> native lines that show the operation is variable-time"""
    rng = cx.rng
    q = pub_point(rng)
    lam = ref.mul(LAMBDA, q)
    z = rng.randrange(2, P)
    raw = lambda v: hexs(v, 8)
    low0 = [fe_tok((q[0] + (rng.randrange(1, 2**200) << 26)) % P) for _ in range(2)] + [fe_tok((-q[1] + (rng.randrange(1, 2**200) << 26)) % P) for _ in range(2)]
    jacs = [jac_tok(q, 1), jac_tok(q, z), jac_tok(ref.neg(q), z), jac_tok(q, z)[:-1] + "1", "%s %s %s 0" % (low0[0], fe_tok(q[1]), fe_tok(1)), "%s %s %s 0" % (fe_tok(5), low0[2], fe_tok(1))]
    fes = [fe_tok(v) for v in (5, 0, 1 << 26, 7 << 52, P - 1, P, 2**256 - 1, 2**256 - 2**64)] + [raw([0x3fffff] + [0x3ffffff] * 9), raw([0x7fffff] + [0x3ffffff] * 9)]
    two = lambda op, l, r: "ct %s / " % op + " / ".join("%s %s" % (a, b) for a in l for b in r)
    one = lambda op, l: "ct %s / " % op + " / ".join(l)
    t = {"Field::normalizes_to_zero_var": [one("f_normalizes_to_zero_var", fes)], "Field::normalize_var": [one("f_normalize_var", fes)],
         "Field::cmp_var": [two("f_cmp_var", fes[:6], fes[:2])], "Field::eq_var": [two("f_eq_var", fes[:6], fes[:2])], "<libsecp256k1::curve::Field as std::cmp::PartialEq": [two("f_eq", fes[:6], fes[:2])],
         "Field::set_b32": [one("f_set_b32", ["%064x" % v for v in (5, P - 1, P, P + 1, 2**256 - 1, 2**256 - 2**224)])],
         "<libsecp256k1::curve::Scalar as std::cmp::PartialEq": [two("s_eq", [sc_tok(5), sc_tok(5 + 2**255 % N)], [sc_tok(5), sc_tok(1 << 200)])],
         "add_ge_var": [two("add_ge_var", jacs, [aff_tok(q), aff_tok(lam)])], "Jacobian::add_var": [two("add_var", jacs, [jac_tok(q, 3), jac_tok(lam, 1)])],
         "Jacobian::double_var": [one("dbl_var", jacs[1:4])], "Affine::set_gej_var": [one("set_gej_var", jacs[1:4])],
         "ECMultContext::ecmult": ["ct ecmult / " + " / ".join("%s %s" % (jac_tok(q, 1), sc_tok(k)) for k in (1, 2, 3, N - 1, rng.randrange(N)))]}

    def f(where):
        return [l for k, ls in t.items() if re.search(re.escape(k) + r"(?![A-Za-z0-9_])", where) for l in ls]
    return f


def settle(cx, t, eng):
    """routines called variable-time that turn out not to be"""
    for nm in list(eng.ct.needed):
        for op, (names, kinds) in VAR.items():
            if nm in names:
                run_leaf(cx, op, names, kinds, extra=(havoc_sqr_mul(),) if op in HEAVY else ())
                del eng.ct.needed[nm]
                break


def cached(f):
    """one battery per lemma run"""
    def g(cx):
        k = "_bat_" + f.__name__
        if not hasattr(cx, k):
            setattr(cx, k, f(cx))
        return getattr(cx, k)
    g.__name__ = f.__name__
    return g


def havoc_sqr_mul():
    """arbitrary results for the multiplications inside an inversion"""
    t = Table()
    cnt = [0]

    def fresh(v):
        cnt[0] += 1
        return scalar("m%d_" % cnt[0]) if len(v) == 1 else felem("m%d_" % cnt[0])

    def ip(eng, st, a, cal):
        eng.store(st, a[0], fresh(eng.load(st, a[1])))
        return ()

    def asg(eng, st, a, cal):
        eng.store(st, a[0], fresh(eng.load(st, a[0])))
        return ()

    def val(eng, st, a, cal):
        return fresh(eng.load(st, a[0]) if isinstance(a[0], Ptr) else a[0])
    for X in (ST, FT):
        for n in ("mul_in_place", "sqr_in_place"):
            t.exact[X + "::" + n] = ip
        t.exact[X + "::sqr"] = val
        t.rx.append((re.compile(r"<&?%s as std::ops::Mul(<&?%s>)?>::mul" % (X, X)), val))
        t.rx.append((re.compile(r"<%s as std::ops::MulAssign(<&?%s>)?>::mul_assign" % (X, X)), asg))
    return t


def bat_leaf(ops):
    return lambda cx: [battery(o, LEAF[o][1], cx.rng) for o in ops]


GROUPS = {"X.scalar": [o for o in LEAF if o.startswith("s_")], "X.field": [o for o in LEAF if not o.startswith("s_")]}
for _n, _ops in GROUPS.items():
    def _f(cx, ops=_ops):
        for o in ops:
            run_leaf(cx, o, *LEAF[o], extra=(havoc_sqr_mul(),) if o in HEAVY else ())
    lemma(_n, "every pair of operand values (words), flags and bytes", bat_leaf(_ops), ())(_f)


# ------------------------------------------------------------------ points and multiplications
class Havoc:
    """arbitrary results of the operations the leaf lemmas cover: secret when an operand is"""

    def __init__(self):
        self.n = 0
        self.tab = Table()
        self.build()

    def name(self, secret):
        self.n += 1
        return ("~" if secret else "") + "h%d_" % self.n

    def fe(self, s):
        n = self.name(s)
        return (tuple(tm.var(n + str(i), 32, 0, gen.limb_max(i, 8)) for i in range(10)), 1, 0)

    def words(self, s):
        n = self.name(s)
        return (tuple(tm.var(n + str(i), 32) for i in range(8)),)

    def bit(self, s):
        return tm.var(self.name(s), 1)

    def like(self, v, s):
        return self.fe(s) if len(v) == 3 else self.words(s)

    def build(self):
        t, me = self.tab, self

        def symbolic(eng, st, v, depth=4):
            if isinstance(v, T):
                return True
            if isinstance(v, tuple):
                return any(symbolic(eng, st, x, depth) for x in v)
            if isinstance(v, E):
                return symbolic(eng, st, v.d) or any(symbolic(eng, st, x, depth) for f in v.f.values() for x in f)
            if isinstance(v, Ptr) and depth:
                return symbolic(eng, st, eng.load(st, v), depth - 1)
            return False

        def on(f, pats=(), rx=(), var=False):
            def g(eng, st, a, cal):
                src = f.src(a)
                vals = [eng.load(st, x) if isinstance(x, Ptr) else x for x in src]
                if not any(symbolic(eng, st, x) for x in vals):
                    return NotImplemented
                s = any(eng.ct.deep(eng, st, x) for x in vals)
                if s and var:
                    return NotImplemented
                return f(eng, st, a, s, vals)
            for p in pats:
                t.exact[p] = g
            for p in rx:
                t.rx.append((re.compile(p), g))

        class Out:
            """writes its first argument; the others are operands"""
            src = staticmethod(lambda a: a[1:])

            def __call__(s_, eng, st, a, s, vals):
                eng.store(st, a[0], me.like(eng.load(st, a[0]), s))
                return ()

        class InOut(Out):
            src = staticmethod(lambda a: a)

        class Val:
            src = staticmethod(lambda a: a)

            def __call__(s_, eng, st, a, s, vals):
                return me.like(vals[0], s)

        class Bit(Val):
            def __call__(s_, eng, st, a, s, vals):
                return me.bit(s)

        class Cmov(Val):
            def __call__(s_, eng, st, a, s, vals):
                v = vals[0]
                if len(v) == 2:
                    eng.store(st, a[0], (me.words(s), me.words(s)))
                else:
                    eng.store(st, a[0], me.like(v, s))
                return ()

        class To(Val):
            def __init__(s_, k):
                s_.k = k

            def __call__(s_, eng, st, a, s, vals):
                return getattr(me, s_.k)(s)

        class Bytes(Val):
            def __call__(s_, eng, st, a, s, vals):
                n = me.name(s)
                b = tuple(tm.var(n + str(i), 8) for i in range(32))
                if len(a) == 2:
                    eng.store(st, a[1], b)
                    return ()
                return b

        class SetBytes(Out):
            def __call__(s_, eng, st, a, s, vals):
                eng.store(st, a[0], me.words(s))
                return (tm.var(me.name(s), 8, 0, 1),)
        for X in (ST, FT):
            on(Out(), [X + "::mul_in_place", X + "::sqr_in_place"])
            on(Val(), [X + "::sqr", X + "::inv"], [r"<&?%s as std::ops::(Mul|Add)(<&?%s>)?>::(mul|add)" % (X, X), r"<&?%s as std::ops::Neg>::neg" % X])
            on(InOut(), (), [r"<%s as std::ops::(Mul|Add)Assign(<&?%s>)?>::(mul|add)_assign" % (X, X)])
            on(Bit(), [X + "::is_zero"])
            on(Bytes(), [X + "::b32", X + "::fill_b32"])
        on(Out(), [S + "inv_in_place", F + "neg_in_place"])
        on(Val(), [F + "neg"])
        on(Cmov(), [F + "cmov", QT + "::cmov", G + "AffineStorage::cmov"])
        on(InOut(), [F + "mul_int", F + "normalize", F + "normalize_weak", S + "cond_neg_assign"])
        on(InOut(), [F + "normalize_var"], var=True)
        on(Bit(), [F + "normalizes_to_zero", F + "is_odd", S + "is_one", S + "is_high", S + "is_even"])
        on(Bit(), [F + "normalizes_to_zero_var", F + "eq_var", "<%s as std::cmp::PartialEq>::eq" % FT], var=True)
        on(Val(), [F + "inv_var", S + "inv_var"], var=True)
        on(To("fe"), ["<%s as std::convert::From<%s>>::from" % (FT, QT)])
        on(To("words"), ["<%s as std::convert::Into<%s>>::into" % (FT, QT)])
        on(SetBytes(), [S + "set_b32"])
        shr = lambda eng, st, a, cal: NotImplemented


def pubfe(nm):
    return (tuple(tm.var("%s%d" % (nm, i), 32, 0, gen.limb_max(i, 8)) for i in range(10)), 1, 0)


def sc_secrets(rng, n=12, extra=()):
    from .l3 import extremes
    ex = [1, 2, 3, N - 1, N - 2, 16, 2**255 % N, (N - 1) // 2, (N + 1) // 2, int("1" * 64, 16) % N, int("f" * 64, 16) % N, int("8" * 64, 16) % N, int("10" * 32, 16)]
    return ex + list(extra) + [rng.randrange(1, N) for _ in range(n)]


LAMBDA = 0x5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72


def endo():
    """scalars k for which some addition meets two points with opposite y: k +- j = lambda^i j"""
    out = []
    for j in (1, 2, 3, 15):
        for l in (LAMBDA, LAMBDA * LAMBDA % N, N - 1):
            for s in (1, -1):
                out += [(l * s * j - j) % N, (l * s * j + j) % N]
    return [v for v in dict.fromkeys(out) if v]


def blind_value(cx):
    from .l3 import static
    v, ty = static(cx, "::ECMULT_GEN_CONTEXT")
    for x in v:
        if len(x) == 1:
            return sum(l << (32 * i) for i, l in enumerate(x[0]))
    return 0


def gen_secrets(cx):
    """structured scalars, also for the blinded sum"""
    b = blind_value(cx)
    base = [0, 1, int("1" * 64, 16), int("f" * 63, 16), 2**252, 2**256 - 2**252, 0x0123456789abcdef << 128, N - 1] + [3 << (4 * j) for j in (0, 1, 7, 31, 62)]
    return [v for v in dict.fromkeys(sc_secrets(cx.rng, 6) + [(x - b) % N for x in base]) if v]


def pub_point(rng):
    q = ref.mul(rng.randrange(1, N), ref.G)
    return q


def aff_tok(q):
    return fe_tok(q[0]) + " " + fe_tok(q[1])


def jac_tok(q, z):
    return "%s %s %s 0" % (fe_tok(q[0] * z * z % P), fe_tok(q[1] * z * z * z % P), fe_tok(z))


@cached
def bat_points(cx):
    rng = cx.rng
    out = []
    pts = [ref.mul(rng.randrange(1, N), ref.G) for _ in range(6)]
    js = [jac_tok(q, z) for q in pts for z in (1, rng.randrange(2, P))]
    q = pts[0]
    lam = ref.mul(LAMBDA, q)
    pairs = [(a, b) for a in pts for b in pts if a != b][:6] + [(q, q), (q, ref.neg(q)), (q, lam), (q, ref.neg(lam)), (ref.neg(lam), q)]
    out.append("ct add_ge / " + " / ".join(jac_tok(a, z) + " " + aff_tok(b) for a, b in pairs for z in (1, rng.randrange(2, P))) +
               " / " + jac_tok(q, 5)[:-1] + "1 " + aff_tok(lam))
    out.append("ct dbl / " + " / ".join(js))
    out.append("ct set_gej / " + " / ".join(js))
    out.append("ct aff_neg / " + " / ".join(aff_tok(q) for q in pts))
    return out


@cached
def bat_gen(cx):
    return ["ct ecmult_gen / " + " / ".join(sc_tok(v) for v in gen_secrets(cx))] + bat_points(cx)


@cached
def bat_const(cx):
    ks = sc_secrets(cx.rng, 6) + endo()
    return ["ct ecmult_const %s / %s" % (aff_tok(q), " / ".join(sc_tok(v) for v in ks)) for q in (ref.G, pub_point(cx.rng))] + bat_points(cx)


def secjac(nm):
    return (felem(nm + "x"), felem(nm + "y"), felem(nm + "z"), tm.var("~" + nm + "i", 1))


@lemma("X.points", "every operand; field operations with arbitrary results", bat_points, ())
def x_points(cx):
    B = cx.bv(20000)
    for n, k in ((G + "Jacobian::add_ge", "add_ge"), (G + "Jacobian::double_nonzero_in_place", "dbl"), (G + "Affine::set_gej", "set_gej"), (G + "Affine::neg", "aff_neg"),
                 (G + "Affine::from_gej", "from_gej")):
        H = Havoc()
        eng = cx.engine(H.tab, feas=None)
        eng.ct = ct.CT()
        st = execu.State()
        J = Ptr(eng.new_heap(st, secjac("j") if k != "dbl" else secjac("j")[:3] + (0,)))
        A = Ptr(eng.new_heap(st, (felem("ax"), felem("ay"), 0)))
        OJ = Ptr(eng.new_heap(st, (((0,) * 10, 0, 1),) * 3 + (0,)))
        OA = Ptr(eng.new_heap(st, (((0,) * 10, 0, 1),) * 2 + (0,)))
        args = {"add_ge": [J, A], "dbl": [OJ, J, E(0, {0: (), 1: (UNDEF,)})], "set_gej": [OA, J], "aff_neg": [A], "from_gej": [J]}[k]
        try:
            cx.P.find(n)
        except Exception:
            cx.notes.append("no %s" % n)
            continue
        cx.call(eng, st, n, args)
        ct.decide(cx, k, eng, B, lambda env: bat_points(cx), more=varlines(cx))


@lemma("X.gen", "every scalar; field and scalar operations with arbitrary results", bat_gen, ("the leaf operations by X.scalar and X.field",))
def x_gen(cx):
    from .l3 import static
    v, ty = static(cx, "::ECMULT_GEN_CONTEXT")
    H = Havoc()
    eng = cx.engine(H.tab, feas=None)
    eng.ct = ct.CT()
    st = execu.State()
    kc = eng.new_heap(st, v, ty)
    kr, kg = eng.new_heap(st, (((0,) * 10, 0, 1),) * 3 + (0,)), eng.new_heap(st, scalar("k"))
    cx.call(eng, st, G + "ECMultGenContext::ecmult_gen", [Ptr(kc), Ptr(kr), Ptr(kg)])
    ct.decide(cx, "ecmult_gen", eng, cx.bv(20000), lambda env: bat_gen(cx), more=varlines(cx))


def finite_doubles(cx):
    """the points ecmult_const doubles are finite: nonzero partial sums of the digits, by M.const"""
    t = Table()

    def clear(i):
        def g(eng, st, a, cal):
            v = eng.load(st, a[i])
            if isinstance(v[3], T) and eng.ct.sec(v[3]):
                eng.store(st, a[i], v[:3] + (0,))
            return NotImplemented
        return g
    t.exact[G + "Jacobian::double_var"] = clear(0)
    t.exact[G + "Jacobian::double_var_in_place"] = clear(1)
    # |sum d_i 16^i| < 2^256 with |d_i| <= 15 odd: every shorter sum is odd and below n
    sv = z3.Solver()
    S, T_, L_, d = z3.Ints("s t l d")
    for j in range(1, 65):
        sv.push()
        sv.add(16**j * S + L_ < 2**256, 16**j * S + L_ > -2**256, L_ < 16**j, L_ > -16**j, S == 16 * T_ + d, d % 2 == 1, z3.Or(S == 0, S >= N, S <= -N))
        if str(sv.check()) != "unsat":
            cx.result("the partial sums from digit %d are nonzero modulo n" % j, "unknown")
            break
        sv.pop()
    else:
        cx.result("the partial sums of the digits are nonzero modulo n", "unsat")
    cx.extraq += 64
    return t


@lemma("X.const", "every point, every scalar; field and scalar operations with arbitrary results", bat_const,
       ("the leaf operations by X.scalar and X.field", "the digits of the recoding are odd, at most 15 in size and sum to a 256-bit number or its negation (W.const); what is doubled are their partial sums (M.const)"))
def x_const(cx):
    H = Havoc()
    eng = cx.engine(finite_doubles(cx), H.tab, feas=None)
    eng.ct = ct.CT()
    st = execu.State()
    kc = eng.new_heap(st, ((),))
    kr, kg = eng.new_heap(st, (((0,) * 10, 0, 1),) * 3 + (0,)), eng.new_heap(st, scalar("k"))
    kp = eng.new_heap(st, (pubfe("px"), pubfe("py"), 0))
    cx.call(eng, st, G + "ECMultContext::ecmult_const", [Ptr(kc), Ptr(kr), Ptr(kp), Ptr(kg)])
    ct.decide(cx, "ecmult_const", eng, cx.bv(20000), lambda env: bat_const(cx), more=varlines(cx))


# ------------------------------------------------------------------ the public operations
@cached
def bat_from_sk(cx):
    return ["ct from_sk / " + " / ".join(sc_tok(v) for v in gen_secrets(cx))]


@cached
def bat_sign_raw(cx):
    rng = cx.rng
    out = []
    for m in (0, rng.randrange(N)):
        ks = gen_secrets(cx)
        ds = sc_secrets(rng, 3)
        pairs = [(d, ks[0]) for d in ds[:6]] + [(ds[-1], k) for k in ks] + [(rng.randrange(1, N), rng.randrange(1, N)) for _ in range(8)]
        out.append("ct sign_raw %s / " % sc_tok(m) + " / ".join("%s %s" % (sc_tok(d), sc_tok(k)) for d, k in pairs))
    return out


@cached
def bat_sign(cx):
    return bat_sign_raw(cx) + ["ct sign %s / " % sc_tok(m) + " / ".join(sc_tok(d) for d in sc_secrets(cx.rng, 10)) for m in (1, cx.rng.randrange(N))]


@cached
def bat_ecdh(cx):
    rng = cx.rng
    q = pub_point(rng)
    ks = " / ".join(sc_tok(v) for v in sc_secrets(rng, 6) + endo())
    return ["ct ecdh %064x%064x / %s" % (q[0], q[1], ks), "ct ecdh_raw %s / %s" % (aff_tok(q), ks)]


GOOD = re.compile("|".join([
    r"^<&?(mut )?(%s|%s) as std::(ops::\w+(<.*>)?|default::Default|clone::Clone|convert::\w+<.*>)>::\w+$" % (ST, FT),
    r"^%s::(set_b32|b32|fill_b32|is_zero|is_one|is_even|is_high|clear|set_int|from_int|mul_in_place|sqr_in_place|sqr|inv|inv_in_place|cond_neg_assign|bits|cadd_bit|shr_int)$" % ST,
    r"^%s::(b32|fill_b32|is_zero|is_odd|clear|set_int|from_int|mul_in_place|sqr_in_place|sqr|inv|neg|neg_in_place|mul_int|normalize|normalize_weak|normalizes_to_zero|cmov)$" % FT,
    r"ECMultGenContext::ecmult_gen$", r"ECMultContext::ecmult_const$", r"curve::Jacobian::add_ge(_in_place)?$"]))


def classify(name):
    """may an operation known by its contract be given secrets?  None: not such an operation"""
    if GOOD.search(name):
        return True
    if ST in name or FT in name or "curve::Jacobian::" in name or "curve::Affine::" in name or "ECMult" in name:
        return False
    return None


class World:
    """which unknowns are public"""

    def __init__(self, D, public):
        self.D = D
        self.public = set(public)       # names of terms and of polynomial variables
        self.polys = []                 # public polynomials
        self.names = {}

    def var(self, v):
        """a variable of a polynomial"""
        if v in self.public:
            return False
        for d in (self.D.f, self.D.s):
            if v in d.ints:
                t = d.ints[v]
                if isinstance(t, T) and t.op == "var" and t.a[0] == v:
                    return True
                return self.ct.sec(t)
        return True

    def poly(self, p):
        if any(p == q for q in self.polys):
            return False
        return any(self.var(v) for m in p for v, _ in m)

    def name(self, n):
        if n in self.public:
            return False
        if n not in self.names:
            r = True
            for d in (self.D.f, self.D.s):
                for p, t in d.canons.values():
                    if isinstance(t, T) and t.op == "var" and t.a[0] == n:
                        r = self.poly(p)
            self.names[n] = r
        return self.names[n]

    def abstract(self, v):
        p = getattr(v, "p", None)
        return self.poly(p) if isinstance(p, dict) else True

    def monitor(self):
        self.ct = ct.CT(secret=self.name, abstract=self.abstract, ok=classify)
        return self.ct


def no_fork(box):
    """conditional negation without a case split"""
    from .edom import SC
    t = Table()

    @t.on(S + "cond_neg_assign")
    def cneg(eng, st, a, cal):
        D = box[0]
        f = a[1][0]
        if not isinstance(f, T):
            return NotImplemented
        x = D.lift(eng.load(st, a[0]))
        n = "sneg" if x.p == box[1] else "~neg%d" % f.id
        eng.store(st, a[0], D.sc(n, D.s.decide(x.p) is False))
        return ()
    return t


def run_top(cx, t, R, W, name, args, mk):
    R.eng.ct = W.monitor()
    res = R.call(name, args)
    cx.true(t + ": runs to an end", bool(res), cands=mk({}))
    settle(cx, t, R.eng)
    ct.decide(cx, t, R.eng, R.B, mk, more=varlines(cx))
    return res


@lemma("X.sign", "every secret key and nonce in [1, n-1], every message with s nonzero; both halves of the range of x; sign: the first draw of the generator is usable", bat_sign,
       ("the operations below by X.scalar, X.field, X.points, X.gen, X.const", "the HMAC-DRBG's and SHA-256's own code is outside", "r not zero"))
def x_sign(cx):
    from .l4 import sign_world, EG, L
    from .l5 import drbg_tab
    mk = lambda env: bat_sign(cx)
    for fn in ("sign_raw", "sign_with_context", "sign"):
        for hi in (0, 1):
            box = [None, {}]
            tab = Table()
            dbox = drbg_tab(tab, 1)
            R, D, k, d, m, r, s, x, Y = sign_world(cx, 0, hi, extra=(no_fork(box), tab))
            box[0], box[1] = D, s
            dbox[0] = D
            dbox[1].append(D.s.ints["k"])
            # which of s and -s the equation gives is secret
            h, sf = tm.var("~high", 1), tm.var("sf", 256, 1, (N - 1) // 2)
            v = tm.ite(256, h, tm.sub(256, N, sf), sf)
            D.s.ints["s"] = v
            D.s.byterm[v.id] = s
            D.s.ints["sneg"] = sf
            D.s.byterm[sf.id] = {(("sneg", 1),): 1}
            D.s.units.add("sneg")
            D.s.keep += [v, sf]
            W = World(D, {"sf", "sneg"} | {q[0] for p in (D.f.reduce(D.f.from_int(x)),) for mm in p for q in mm} | {x.a[0]})
            W.polys.append(m.p)
            if fn == "sign_raw":
                run_top(cx, "sign_raw, x %s n" % ("above" if hi else "below"), R, W, EG + "sign_raw", [R.heap(((),)), R.heap(d), R.heap(m), R.heap(k)], mk)
            else:
                run_top(cx, "%s, x %s n" % (fn, "above" if hi else "below"), R, W, L + fn, [R.heap((m,)), R.heap((d,))] + ([R.heap(((),))] if fn != "sign" else []), mk)


@lemma("X.pub", "every secret key in [1, n-1]", bat_from_sk, ("the operations below by X.scalar, X.field, X.points, X.gen",))
def x_pub(cx):
    from .l4 import Run, L
    mk = lambda env: bat_from_sk(cx)
    for fn in ("from_secret_key", "from_secret_key_with_context"):
        R = Run(cx)
        D = R.D
        d = D.sc("d", True)
        X, Y = D.coords(D.fscale(D.base("G"), d.p))
        W = World(D, {q[0] for p in (X, Y) for mm in p for q in mm})
        run_top(cx, fn, R, W, L + "PublicKey::" + fn, [R.heap((d,))] + ([R.heap(((),))] if fn != "from_secret_key" else []), mk)


@lemma("X.ecdh", "every finite public key, every secret in [1, n-1]; SHA-256", bat_ecdh, ("the operations below by X.scalar, X.field, X.points, X.const", "SHA-256's own code is outside"))
def x_ecdh(cx):
    from .l4 import Run, L
    from .l5 import sha_tab
    mk = lambda env: bat_ecdh(cx)
    for fn in ("ecdh_raw", "new_with_context", "new"):
        tab, out = sha_tab()
        R = Run(cx, extra=[tab])
        D = R.D
        Q, d = D.base("Q"), D.sc("d", True)
        W = World(D, {"X#Q", "Y#Q"})
        if fn == "ecdh_raw":
            name, a = "libsecp256k1_core::ecdh::<impl libsecp256k1::curve::ECMultContext>::ecdh_raw::<sha2::Sha256>", [R.heap(((),)), R.heap(D.affine(Q)), R.heap(d)]
        else:
            name, a = L + "SharedSecret::<sha2::Sha256>::" + fn, [R.heap((D.affine(Q),)), R.heap((d,))] + ([R.heap(((),))] if fn != "new" else [])
        run_top(cx, fn, R, W, name, a, mk)
