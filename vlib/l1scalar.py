"""Scalar arithmetic: every obligation on the real limb code."""
import z3
from . import terms as tm, mir, execu, gen, ref
from .framework import lemma
from .mir import Ptr, UNDEF
from .ref import N, HALF
from .zpoly import padd
from . import fdom

S = "libsecp256k1::curve::Scalar::"
ST = "libsecp256k1::curve::Scalar"
W = 272


def sc(nm):
    return (tuple(tm.var("%s%d" % (nm, i), 32) for i in range(8)),)


def stok(env, nm):
    return "%064x" % sum(env.get("%s%d" % (nm, i), 0) << (32 * i) for i in range(8))


def sval(B, s, w=W):
    v = z3.BitVecVal(0, w)
    for i, x in enumerate(s[0]):
        v = v + (z3.ZeroExt(w - 32, B.z(x, 32)) << (32 * i))
    return v


def zval(z, s):
    q = {}
    for i, x in enumerate(s[0]):
        q = padd(q, z.enc(x), 1 << (32 * i))
    return q


def flag(x):
    """the term of a bool, Choice or u8 result"""
    while isinstance(x, tuple) and len(x) == 1:
        x = x[0]
    return x


def overflow_table(cx):
    """every function &Scalar -> bool/Choice that is proved to be the test [value >= n] is
    replaced by that test in its canonical form"""
    tab = execu.Table()
    B = cx.bv()
    names = sorted(n for n in cx.P.byname if n.startswith(S))
    for nm in names:
        if nm.rsplit("::", 1)[1] in ("is_zero", "is_one", "is_even", "is_high", "b32", "sqr", "inv", "inv_var", "clear"):
            continue
        fn = cx.fn(nm)
        if fn is None or fn.nargs != 1:
            continue
        try:
            eng = cx.engine()
            cx.engines.pop()
            eng.max_steps = 20000
            st = execu.State()
            A = sc("a")
            k = eng.new_heap(st, A)
            res = eng.run_fn(st, fn, [Ptr(k)])
            if len(res) != 1 or res[0][0].mem[k] != A:
                continue
            r = res[0][1]
            t = flag(r)
            if not isinstance(t, tm.T) or t.w not in (1, 8):
                continue
            want = tm.bigge(A[0], N)
            want = want if t.w == 1 else tm.zext(8, want, 1)
            if B.valid(tm.eq(t.w, t, want), timeout=20000)[0] != "unsat":
                continue
        except (mir.Unsupported, execu.CantMerge):
            continue
        wrap = isinstance(r, tuple)

        def ov(eng, st, a, cal, w=t.w, wrap=wrap):
            v = eng.load(st, a[0])
            q = tm.bigge(v[0], N)
            q = q if w == 1 else tm.zext(8, q, 1)
            return (q,) if wrap else q
        tab.exact[nm] = ov
        cx.notes.append("proved to be the comparison with n: " + nm)
    return tab


def sclist(cx, k=60):
    v = list(gen.SC_EDGE) + [N - 2**32, N - 2**64, N - 2**128, (1 << 256) % N]
    for i in range(8):
        v += [(0xffffffff << (32 * i)) % N, ((2**256 - 1) ^ (0xffffffff << (32 * i))) % N]
        v += [(N - (1 << (32 * i))) % N, (N + (1 << (32 * i))) % N]
    for i in range(k):
        m = 0
        for j in range(8):
            m |= cx.rng.choice([0, 0, 0xffffffff, 0xffffffff, 1, 0x80000000, 0xfffffffe, cx.rng.getrandbits(32)]) << (32 * j)
        v.append(m % N)
    return list(dict.fromkeys(v))


def wide(cx, k=300):
    """256-bit values, not necessarily reduced"""
    v = sclist(cx, k)
    return v + [N, N + 1, N - 1, 2**256 - 1, 2**256 - 2**32, 2 * HALF, HALF + N if HALF + N < 2**256 else N] + \
        [(2**256 - 1) ^ (1 << i) for i in range(0, 256, 5)]


def _bmul(op, forms):
    def b(cx):
        v = [x for x in wide(cx, 80) if x < 2**256]
        out = []
        for i, a in enumerate(v):
            for j in range(0, len(v), 3):
                out.append("s_mul %d %064x %064x" % ((i + j) % forms, a, v[(i + j) % len(v)]))
            out.append("s_sqr 0 %064x" % a)
        return out
    return b


def mulcore(cx, name, args, alias=False, op="s_mul 0"):
    tab = overflow_table(cx)
    eng = cx.engine(tab)
    st = execu.State()
    A = sc("a")
    Bv = A if alias else sc("b")
    ka, kb, kr = eng.new_heap(st, A), eng.new_heap(st, Bv), eng.new_heap(st, ((0,) * 8,))
    av = {"r": Ptr(kr), "a": Ptr(ka), "b": Ptr(kb), "A": A, "B": Bv}
    s, rv = cx.one(cx.call(eng, st, name, [av[x] for x in args]))
    out = s.mem[kr] if "r" in args else rv if isinstance(rv, tuple) and rv else s.mem[ka]
    cx.no_panics(name, eng)
    z = cx.z(cut=True)
    o = zval(z, out)
    d = padd(o, z.pmul(zval(z, A), zval(z, Bv)), -1)
    r = z.prove_congruent(d, N)[0]
    cx.result(name + ": result = product modulo n", "unsat" if r == "unsat" else "unknown")
    if r == "unsat":
        cx.result(name + ": result is reduced", "unsat" if z.prove([o], lambda lin: z3.And(lin(o) < N, lin(o) >= 0))[0] == "unsat" else "unknown")


@lemma("S.mul", "all pairs of 256-bit limb values", _bmul("s_mul", 5), timeout=500)
def s_mul(cx):
    mulcore(cx, S + "mul_in_place", "rab")


@lemma("S.sqr", "all 256-bit limb values", _bmul("s_sqr", 5), timeout=500)
def s_sqr(cx):
    mulcore(cx, S + "sqr_in_place", "ra", alias=True)


def captured(cx, name, args, want_sym, alias=False):
    """an operator form: its result is what one call of mul_in_place / sqr_in_place on the
    operands returns"""
    seen = []
    tab = execu.Table()

    @tab.on(S + "mul_in_place")
    def m(eng, st, a, cal):
        r = sc("m%d_" % len(seen))
        seen.append((r, (eng.load(st, a[1]), eng.load(st, a[2]))))
        eng.store(st, a[0], r)
        return ()

    @tab.on(S + "sqr_in_place")
    def q(eng, st, a, cal):
        r = sc("m%d_" % len(seen))
        v = eng.load(st, a[1])
        seen.append((r, (v, v)))
        eng.store(st, a[0], r)
        return ()
    eng = cx.engine(tab)
    st = execu.State()
    A = sc("a")
    Bv = A if alias else sc("b")
    ka, kb = eng.new_heap(st, A), eng.new_heap(st, Bv)
    av = {"a": Ptr(ka), "b": Ptr(kb), "A": A, "B": Bv}
    s, rv = cx.one(cx.call(eng, st, name, [av[x] for x in args]))
    out = rv if isinstance(rv, tuple) and rv else s.mem[ka]
    ok = len(seen) == 1 and out == seen[0][0] and (seen[0][1] in ((A, Bv), (Bv, A)))
    if ok:
        cx.result(name + ": is the product of its operands", "unsat")
        cx.no_panics(name, eng)
    else:
        mulcore(cx, name, args, alias)


@lemma("S.mulops", "all pairs of 256-bit limb values, every operator form", _bmul("s_mul", 5), timeout=500,
       assumes=("contract of Scalar::mul_in_place, sqr_in_place: lemmas S.mul, S.sqr",))
def s_mulops(cx):
    T = ST + " as std::ops::"
    captured(cx, "<%sMul>::mul" % T, "AB", None)
    captured(cx, "<&%sMul>::mul" % T, "ab", None)
    captured(cx, "<%sMulAssign<&%s>>::mul_assign" % (T, ST), "ab", None)
    captured(cx, "<%sMulAssign>::mul_assign" % T, "aB", None)
    captured(cx, S + "sqr", "a", None, alias=True)


# ------------------------------------------------------------------ linear operations
def below(B, *ss):
    return [z3.ULT(sval(B, s), N) for s in ss]


def _badd(cx):
    v = sclist(cx, 40)
    out = []
    for i, a in enumerate(v):
        for b in (a, (N - a) % N, (N - a + 1) % N, (N - 1 - a) % N, (2**256 - a) % N, (2**256 - 1 - a) % N, (2**256 - N - a) % N, v[(i * 7 + 3) % len(v)]):
            out.append("s_add %d %064x %064x" % (i % 4, a, b))
    return out


@lemma("S.add", "all pairs of scalars below n, every operator form", _badd)
def s_add(cx):
    T = ST + " as std::ops::"
    for j, (nm, args) in enumerate((("<%sAdd>::add" % T, "AB"), ("<&%sAdd>::add" % T, "ab"), ("<%sAddAssign<&%s>>::add_assign" % (T, ST), "ab"),
                                    ("<%sAddAssign>::add_assign" % T, "aB"))):
        B = cx.bv(100000)
        eng = cx.engine()
        st = execu.State()
        A, Bv = sc("a"), sc("b")
        ka, kb = eng.new_heap(st, A), eng.new_heap(st, Bv)
        av = {"a": Ptr(ka), "b": Ptr(kb), "A": A, "B": Bv}
        pre = below(B, A, Bv)
        mk = lambda env: ["s_add %d %s %s" % (f, stok(env, "a"), stok(env, "b")) for f in range(4)]
        res = cx.call(eng, st, nm, [av[x] for x in args])
        cx.obligations(nm, eng, B, pre, mk)
        for s, rv in res:
            out = rv if isinstance(rv, tuple) and rv else s.mem[ka]
            sm = sval(B, A) + sval(B, Bv)
            cx.valid(nm + ": sum modulo n, reduced", B, sval(B, out) == z3.If(z3.UGE(sm, N), sm - N, sm), pre + list(s.pc), mk)


@lemma("S.neg", "all scalars below n", lambda cx: [l for v in sclist(cx) for l in ("s_neg 0 %064x" % v, "s_neg 1 %064x" % v, "s_cneg 0 %064x" % v, "s_cneg 1 %064x" % v)])
def s_neg(cx):
    T = ST + " as std::ops::"
    for nm, args in (("<%sNeg>::neg" % T, "A"), ("<&%sNeg>::neg" % T, "a"), (S + "cond_neg_assign", "af")):
        B = cx.bv(100000)
        eng = cx.engine()
        st = execu.State()
        A = sc("a")
        ka = eng.new_heap(st, A)
        f = tm.var("f", 8, 0, 1)
        av = {"a": Ptr(ka), "A": A, "f": (f,)}
        pre = below(B, A)
        mk = lambda env: ["s_neg 0 " + stok(env, "a"), "s_neg 1 " + stok(env, "a"), "s_cneg 1 " + stok(env, "a"), "s_cneg 0 " + stok(env, "a")]
        res = cx.call(eng, st, nm, [av[x] for x in args])
        cx.obligations(nm, eng, B, pre, mk)
        for s, rv in res:
            out = rv if isinstance(rv, tuple) and rv else s.mem[ka]
            v = sval(B, A)
            want = z3.If(v == 0, v, N - v)
            if "f" in args:
                want = z3.If(B.z(f, 8) == 1, want, v)
            cx.valid(nm, B, sval(B, out) == want, pre + list(s.pc), mk)


def _bpred(cx):
    return [l for v in sclist(cx) for l in ["s_%s %064x" % (o, v) for o in ("is_high", "is_zero", "is_one", "is_even")]]


@lemma("S.pred", "all scalars below n", _bpred)
def s_pred(cx):
    B = cx.bv(100000)
    for nm, g in (("is_high", lambda v: z3.UGT(v, HALF)), ("is_zero", lambda v: v == 0), ("is_one", lambda v: v == 1),
                  ("is_even", lambda v: z3.Extract(0, 0, v) == 0)):
        eng = cx.engine()
        st = execu.State()
        A = sc("a")
        ka = eng.new_heap(st, A)
        pre = below(B, A)
        mk = lambda env: ["s_%s %s" % (nm, stok(env, "a"))]
        for s, rv in cx.call(eng, st, S + nm, [Ptr(ka)]):
            cx.valid(nm, B, B.b(flag(rv)) == g(sval(B, A)), pre + list(s.pc), mk)
            cx.true(nm + ": operand unchanged", s.mem[ka] == A)
        cx.obligations(nm, eng, B, pre, mk)


def _bbits(cx):
    out = []
    vs = sclist(cx, 10)
    for c in range(1, 32):
        for o in range(0, 257 - c):
            v = vs[(c * 7 + o) % len(vs)]
            out.append("s_bits_var %d %d %064x" % (o, c, v))
            if (o + c - 1) >> 5 == o >> 5:
                out.append("s_bits %d %d %064x" % (o, c, v))
    return out


@lemma("S.bits", "all 256-bit values; every width 1..31; every offset (symbolic) within the value, and within one limb for `bits`", _bbits, timeout=600)
def s_bits(cx):
    for nm in ("bits", "bits_var"):
        for c in range(1, 32):
            B = cx.bv(100000)
            eng = cx.engine(feas=B.feas)
            st = execu.State()
            A = sc("a")
            ka = eng.new_heap(st, A)
            off = tm.var("o", 64, 0, 256 - c)
            pre = []
            if nm == "bits":
                lim = z3.LShR(B.z(off, 64) + (c - 1), 5) == z3.LShR(B.z(off, 64), 5)
                pre = [lim]
            mk = lambda env: ["s_%s %d %d %s" % (nm, env.get("o", 0), c, stok(env, "a"))]
            res = cx.call(eng, st, S + nm, [Ptr(ka), off, c])
            cx.obligations("%s(%d)" % (nm, c), eng, B, pre, mk)
            o = z3.ZeroExt(W - 64, B.z(off, 64))
            for s, rv in res:
                want = z3.Extract(31, 0, z3.LShR(sval(B, A), o)) & ((1 << c) - 1)
                cx.valid("%s width %d" % (nm, c), B, B.z(flag(rv), 32) == want, pre + list(s.pc), mk)


@lemma("S.shr", "all 256-bit values, every shift 1..15", lambda cx: ["s_shr_int %d %064x" % (k, v) for v in wide(cx, 30) for k in range(1, 16)])
def s_shr(cx):
    B = cx.bv(100000)
    for k in range(1, 16):
        eng = cx.engine()
        st = execu.State()
        A = sc("a")
        ka = eng.new_heap(st, A)
        mk = lambda env: ["s_shr_int %d %s" % (k, stok(env, "a"))]
        for s, rv in cx.call(eng, st, S + "shr_int", [Ptr(ka), k]):
            cx.valid("shr_int(%d)" % k, B, z3.And(sval(B, s.mem[ka]) == z3.LShR(sval(B, A), k),
                                                  B.z(rv, 32) == z3.Extract(31, 0, sval(B, A)) & ((1 << k) - 1)), list(s.pc), mk)
        cx.obligations("shr_int(%d)" % k, eng, B, (), mk)


def _bcadd(cx):
    out = []
    for v in sclist(cx, 20):
        for b in range(256):
            if v + (1 << b) < N:
                out.append("s_cadd_bit %d 1 %064x" % (b, v))
    for b in range(256):
        w = 1 << b
        for v in ((N - 1 - w), (1 << 255) - 1 - (w & ((1 << 255) - 1)), ((1 << (b // 32 * 32 + 32)) - w) % N, (((1 << 200) - 1) ^ w) | (((1 << (b // 32 * 32 + 32)) - w))):
            if 0 <= v and v + w < N:
                out.append("s_cadd_bit %d 1 %064x" % (b, v))
                out.append("s_cadd_bit %d 0 %064x" % (b, v))
    return out


@lemma("S.caddbit", "all scalars, every bit 0..255 (symbolic) and flag, when the sum stays below n", _bcadd)
def s_caddbit(cx):
    B = cx.bv(200000)
    eng = cx.engine()
    st = execu.State()
    A = sc("a")
    ka = eng.new_heap(st, A)
    bit, f = tm.var("bit", 64, 0, 255), tm.var("f", 1)
    add = z3.If(B.b(f), z3.BitVecVal(1, W) << z3.ZeroExt(W - 64, B.z(bit, 64)), z3.BitVecVal(0, W))
    want = sval(B, A) + add
    pre = [z3.ULT(want, N)]
    mk = lambda env: ["s_cadd_bit %d %d %s" % (env.get("bit", 0), env.get("f", 0), stok(env, "a"))]
    for s, rv in cx.call(eng, st, S + "cadd_bit", [Ptr(ka), bit, f]):
        cx.valid("cadd_bit", B, sval(B, s.mem[ka]) == want, pre + list(s.pc), mk)
    cx.obligations("cadd_bit", eng, B, pre, mk)


@lemma("S.setint", "all 32-bit integers", lambda cx: ["s_set_int %d" % k for k in (0, 1, 2, 255, 256, 65535, 65536, 2**31, 2**32 - 1)])
def s_setint(cx):
    B = cx.bv()
    k = tm.var("k", 32)
    mk = lambda env: ["s_set_int %d" % env.get("k", 0)]
    eng = cx.engine()
    st = execu.State()
    kr = eng.new_heap(st, sc("r"))
    for s, rv in cx.call(eng, st, S + "set_int", [Ptr(kr), k]):
        cx.valid("set_int", B, sval(B, s.mem[kr]) == z3.ZeroExt(W - 32, B.z(k, 32)), list(s.pc), mk)
    eng = cx.engine()
    for s, rv in cx.call(eng, execu.State(), S + "from_int", [k]):
        cx.valid("from_int", B, sval(B, rv) == z3.ZeroExt(W - 32, B.z(k, 32)), list(s.pc), mk)


@lemma("S.clear", "all scalars", lambda cx: ["s_clear %064x" % v for v in sclist(cx, 20)])
def s_clear(cx):
    eng = cx.engine()
    st = execu.State()
    A = sc("a")
    ka = eng.new_heap(st, A)
    B = cx.bv()
    for s, rv in cx.call(eng, st, S + "clear", [Ptr(ka)]):
        cx.valid("clear leaves zero", B, sval(B, s.mem[ka]) == 0, list(s.pc), lambda env: ["s_clear " + stok(env, "a")])
    cx.no_panics("clear", eng)


# ------------------------------------------------------------------ bytes
def by(nm, n):
    return tuple(tm.var("%s%d" % (nm, i), 8) for i in range(n))


def bytes_be(B, b, w=W):
    return z3.ZeroExt(w - 8 * len(b), z3.Concat(*[B.z(x, 8) for x in b]))


def benv(env, nm, n):
    return "".join("%02x" % env.get("%s%d" % (nm, i), 0) for i in range(n))


@lemma("S.setb32", "all 2^256 byte strings", lambda cx: ["s_set_b32 %064x" % v for v in wide(cx) + [N + k for k in (0, 1, 2, 2**32, 2**64, 2**96, 2**127)] + list(range(N - 3, N + 4))])
def s_setb32(cx):
    B = cx.bv(100000)
    eng = cx.engine()
    st = execu.State()
    b = by("b", 32)
    kb = eng.new_heap(st, b)
    kr = eng.new_heap(st, ((0,) * 8,))
    mk = lambda env: ["s_set_b32 " + benv(env, "b", 32)]
    V = bytes_be(B, b)
    for s, rv in cx.call(eng, st, S + "set_b32", [Ptr(kr), Ptr(kb)]):
        cx.valid("set_b32: value modulo n", B, sval(B, s.mem[kr]) == z3.If(z3.UGE(V, N), V - N, V), list(s.pc), mk)
        t = flag(rv)
        cx.valid("set_b32: overflow exactly from n", B, (B.z(t, t.w if isinstance(t, tm.T) else 8) == 1) == z3.UGE(V, N), list(s.pc), mk)
    cx.obligations("set_b32", eng, B, (), mk)


@lemma("S.b32", "all 256-bit values", lambda cx: ["s_b32 %064x" % v for v in wide(cx, 60)])
def s_b32(cx):
    B = cx.bv()
    for nm in ("b32", "fill_b32"):
        eng = cx.engine()
        st = execu.State()
        A = sc("a")
        ka = eng.new_heap(st, A)
        ko = eng.new_heap(st, by("junk", 32))
        mk = lambda env: ["s_b32 " + stok(env, "a")]
        for s, rv in cx.call(eng, st, S + nm, [Ptr(ka)] + ([Ptr(ko)] if nm == "fill_b32" else [])):
            out = rv if nm == "b32" else s.mem[ko]
            cx.valid(nm + ": big-endian value", B, bytes_be(B, out) == sval(B, A), list(s.pc), mk)
        cx.obligations(nm, eng, B, (), mk)


# ------------------------------------------------------------------ inverse
class SP(execu.Abstract):
    """a power of the base scalar"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def same(self, o):
        return isinstance(o, SP) and o.e == self.e

    def field(self, eng, i):
        raise mir.Unsupported("limbs of an abstract scalar")


def power_table():
    tab = execu.Table()

    def L(v):
        if isinstance(v, SP):
            return v.e
        if v == ((1, 0, 0, 0, 0, 0, 0, 0),):
            return 0
        raise mir.Unsupported("scalar that is not a power of the base")

    @tab.on(S + "mul_in_place")
    def m(eng, st, a, cal):
        eng.store(st, a[0], SP(L(eng.load(st, a[1])) + L(eng.load(st, a[2]))))
        return ()

    @tab.on(S + "sqr_in_place")
    def q(eng, st, a, cal):
        eng.store(st, a[0], SP(2 * L(eng.load(st, a[1]))))
        return ()
    return tab


@lemma("S.inv", "every scalar (exponent arithmetic over the real addition chain; multiplication by contract S.mul, S.sqr)",
       lambda cx: ["s_inv%s %064x" % (v, x) for v in ("", "_var") for x in sclist(cx, 10)],
       assumes=("Fermat: a^(n-2) is the inverse of a modulo the prime n, and 0 for 0", "contract of Scalar::mul_in_place, sqr_in_place: lemmas S.mul, S.sqr"))
def s_inv(cx):
    for nm in ("inv", "inv_var", "inv_in_place"):
        eng = cx.engine(power_table())
        st = execu.State()
        k = eng.new_heap(st, SP(1))
        kr = eng.new_heap(st, ((0,) * 8,))
        s, rv = cx.one(cx.call(eng, st, S + nm, [Ptr(k)] if nm != "inv_in_place" else [Ptr(kr), Ptr(k)]))
        cx.no_panics(nm, eng)
        out = s.mem[kr] if nm == "inv_in_place" else rv
        if not isinstance(out, SP):
            cx.result(nm, "unknown", detail=repr(out)[:200])
            continue
        cx.result(nm + ": result is a^(n-2)", fdom.solve_exponent(cx, out.e, N - 2, N - 1), detail="exponent %#x" % out.e)
