"""Keys, signatures, encodings: the public types, executed over edom."""
import z3
from . import terms as tm, mir, execu, gen, ref
from .terms import T
from .framework import lemma
from .mir import Ptr, E, UNDEF, Unsupported
from .ref import P, N
from .fdom import FE, var, const, pmul, padd, psub, ppow, pstr
from .edom import ED, SC, MAG, pkey, bytes_be
from .execu import Outcomes, Table
from .l4 import Run, L, ASSUME, hx, pt, res_kind, err_of, EC, EG

PK, SK, SG, MS, RI = (L + x + "::" for x in ("PublicKey", "SecretKey", "Signature", "Message", "RecoveryId"))
FADD = ("field, scalar and point operations by their contracts (C02, C03, C04, C07, C10), with the preconditions checked at every call",)


def v256(name):
    return tm.var(name, 256)


def byte(name):
    return tm.var(name, 8)


def hb(v, n=32):
    return (v % (1 << (8 * n))).to_bytes(n, "big").hex()


def same_bytes(R, got, want):
    """z3: two byte strings of equal length are equal"""
    if len(got) != len(want):
        return z3.BoolVal(False)
    return z3.And([R.B.z(g, 8) == R.B.z(w, 8) for g, w in zip(got, want)] + [z3.BoolVal(True)])


def scalar_of(D, v):
    return D.lift(v)


def is_scalar(R, name, v, want, pc, mk=None):
    """the scalar v is the polynomial `want`"""
    got = R.D.lift(v).p
    if got == R.D.s.reduce(want):
        return R.cx.result(name, "unsat")
    return R.valid(name, R.B.z(R.D.s.canon(got), 256) == R.B.z(R.D.s.canon(want), 256), pc, mk)


def field_mag(R, name, fe):
    R.cx.true(name + ": coordinate magnitude within %d" % MAG, R.D.f.lift(fe).mag <= MAG)


# ------------------------------------------------------------------ public-key parsing
def edge_xy(rng):
    """interesting (x, y, on curve) pairs as plain integers below 2^256"""
    out = []
    for v in (0, 1, 2, 3, 4, 5, P - 1, P - 2, P - 3, N - 1, N, N + 1, P - N, (1 << 255), rng.randrange(P), rng.randrange(P), rng.randrange(P)):
        for odd in (0, 1):
            q = ref.lift(v % P, odd)
            if q:
                out.append(q)
                out.append((q[0], P - q[1]))
                out.append((q[0], (q[1] + 1) % P))
                if q[0] + P < 1 << 256:
                    out.append((q[0] + P, q[1]))
                if q[1] + P < 1 << 256:
                    out.append((q[0], q[1] + P))
            else:
                out.append((v % P, rng.randrange(P)))
    for v in ((1 << 256) - 1, P, P + 1, P + 2, P + 3, (1 << 256) - 2):
        out.append((v, rng.randrange(P)))
        out.append((rng.randrange(P), v))
    # small y: x^3 = y^2 - 7
    for y in range(0, 12):
        x = cube_root((y * y - 7) % P)
        if x is not None:
            out += [(x, y), (x, P - y if y else 0)]
            if y + P < 1 << 256:
                out.append((x, y + P))
    return out


def cube_root(a):
    # p = 7 mod 9: a root of a cube is a^((p+2)/9)
    assert P % 9 == 7
    r = pow(a, (P + 2) // 9, P)
    return r if pow(r, 3, P) == a else None


def bat_pkparse(cx):
    rng = cx.rng
    out = []
    for x, y in edge_xy(rng):
        for t in (2, 3, 4, 6, 7):
            out.append("pk_parse %02x%s%s" % (t, hb(x), hb(y)))
        for t in (2, 3, 4):
            out.append("pk_parse_c %02x%s" % (t, hb(x)))
    G = pt(1)
    H = pt(2)
    for q in (G, H, ref.neg(G), pt(rng.randrange(1, N))):
        for t in range(256):
            out.append("pk_parse %02x%s%s" % (t, hb(q[0]), hb(q[1])))
            out.append("pk_parse_c %02x%s" % (t, hb(q[0])))
    for q in (G, ref.neg(G)):
        full, comp, raw = "04" + hb(q[0]) + hb(q[1]), "%02x" % (2 + q[1] % 2) + hb(q[0]), hb(q[0]) + hb(q[1])
        for f in "NFCR":
            for s in (full, comp, raw, "06" + raw, "07" + raw, "02" + raw, "04" + comp[2:]):
                out.append("pk_parse_slice %s %s" % (f, s))
            for n in range(0, 80):
                out.append("pk_parse_slice %s %s" % (f, (full + comp)[:2 * n] or "-"))
    return out


FMT = {"N": None, "C": 0, "F": 1, "R": 2}


class PkIn:
    """the bytes of an encoding: prefix, x, y"""

    def __init__(self, R, t=None, y=True):
        D = R.D
        self.t = byte("t") if t is None else t
        self.x, self.y = v256("x"), v256("y")
        self.xb, self.yb = D.ints.split(self.x), D.ints.split(self.y)

    def full(self):
        return (self.t,) + self.xb + self.yb

    def comp(self):
        return (self.t,) + self.xb

    def mk_full(self, env):
        return ["pk_parse %02x%s%s" % (env.get("t", 4), hb(env.get("x", 1)), hb(env.get("y", 1)))] + \
            ["pk_parse %02x%s%s" % (t, hb(q[0]), hb(q[1])) for t in {env.get("t", 4), 4, 6, 7} for o in (0, 1) for q in [ref.lift(env.get("x", 1) % P, o)] if q]

    def mk_comp(self, env):
        return ["pk_parse_c %02x%s" % (env.get("t", 2), hb(env.get("x", 1) + d)) for d in (0, 1, 2, 3)]


def judge_full(R, t, I, res, get, mk):
    """res = [(state, Result)]: judged as the parse of prefix, x, y"""
    D, B, cx = R.D, R.B, R.cx
    X, Y = D.f.from_int(I.x), D.f.from_int(I.y)
    on = D.f.zero_test(D.f.reduce(psub(ppow(Y, 2), padd(ppow(X, 3), const(7)))))
    for s, v in res:
        if not R.possible(s.pc):
            continue
        ok = res_kind(v) == 0
        par = tm.trunc(1, I.y, 256)
        tz = B.z(I.t, 8) if isinstance(I.t, T) else z3.BitVecVal(I.t, 8)
        fmt = z3.Or(tz == 4, z3.And(tz == 6, z3.Not(B.b(par))), z3.And(tz == 7, B.b(par)))
        want = z3.And(fmt, z3.ULT(B.z(I.x, 256), z3.BitVecVal(P, 256)), z3.ULT(B.z(I.y, 256), z3.BitVecVal(P, 256)), B.b(on))
        if not ok:
            R.valid(t + ": only invalid encodings are rejected", z3.Not(want), s.pc, mk)
            continue
        R.valid(t + ": only valid encodings are accepted", want, s.pc, mk)
        q = get(v)
        cx.true(t + ": the key is finite", q[2] == 0)
        for c, w in ((q[0], X), (q[1], Y)):
            cx.true(t + ": coordinates are those encoded", D.f.lift(c).p == D.f.reduce(w), mk({}), detail=pstr(D.f.lift(c).p))
            field_mag(R, t, c)


def judge_comp(R, t, I, res, get, mk):
    D, B, cx = R.D, R.B, R.cx
    X = D.f.from_int(I.x)
    rhs = D.f.reduce(padd(ppow(X, 3), const(7)))
    sq = D.f.square_test(rhs)
    for s, v in res:
        if not R.possible(s.pc):
            continue
        ok = res_kind(v) == 0
        tz = B.z(I.t, 8) if isinstance(I.t, T) else z3.BitVecVal(I.t, 8)
        want = z3.And(z3.Or(tz == 2, tz == 3), z3.ULT(B.z(I.x, 256), z3.BitVecVal(P, 256)), B.b(sq))
        if not ok:
            R.valid(t + ": only invalid encodings are rejected", z3.Not(want), s.pc, mk)
            continue
        R.valid(t + ": only valid encodings are accepted", want, s.pc, mk)
        q = get(v)
        cx.true(t + ": the key is finite", q[2] == 0)
        x, y = D.f.lift(q[0]), D.f.lift(q[1])
        cx.true(t + ": x is the one encoded", x.p == D.f.reduce(X), mk({}), detail=pstr(x.p))
        cx.true(t + ": the point is on the curve", not D.f.reduce(psub(ppow(y.p, 2), rhs)), mk({}), detail=pstr(y.p))
        R.valid(t + ": y has the encoded parity", B.b(D.f.parity(D.f.reduce(y.p))) == (z3.Extract(0, 0, tz) == 1), s.pc, mk)
        field_mag(R, t, q[0])
        field_mag(R, t, q[1])


@lemma("K.pkparse", "every 65-byte and every 33-byte string", bat_pkparse, FADD)
def k_pkparse(cx):
    R = Run(cx)
    I = PkIn(R)
    res = R.call(PK + "parse", [R.heap(I.full())])
    judge_full(R, "parse", I, res, lambda v: v.f[0][0][0], I.mk_full)
    R.cover("parse", [s for s, _ in res], I.mk_full)
    R.done("parse", I.mk_full)
    R = Run(cx)
    I = PkIn(R)
    R.D.lifted.append(R.D.f.from_int(I.x))
    res = R.call(PK + "parse_compressed", [R.heap(I.comp())])
    judge_comp(R, "parse_compressed", I, res, lambda v: v.f[0][0][0], I.mk_comp)
    R.cover("parse_compressed", [s for s, _ in res], I.mk_comp)
    R.done("parse_compressed", I.mk_comp)


@lemma("K.pkslice", "every byte string of every length (lengths other than 33, 64, 65 as one symbolic length), every requested format", bat_pkparse, FADD)
def k_pkslice(cx):
    for f, fv in FMT.items():
        fmt = E(0, {0: ()}) if fv is None else E(1, {1: (E(fv, {fv: ()}),)})
        for ln in (33, 64, 65, None):
            R = Run(cx)
            D, B = R.D, R.B
            t = "parse_slice, %s bytes, format %s" % (ln or "other", f)
            I = PkIn(R, 4 if ln == 64 else None)
            mk = lambda env, f=f, ln=ln: ["pk_parse_slice %s %s" % (f, x) for x in (
                ("%02x%s%s" % (env.get("t", 4), hb(env.get("x", 1)), hb(env.get("y", 1))))[:2 * (ln or min(env.get("len", 0), 400))] or "-",
                ("%02x%s" % (2 + env.get("t", 0) % 2, hb(env.get("x", 1)))),
                (hb(pt(1)[0]) + hb(pt(1)[1])), "04" + (hb(pt(1)[0]) + hb(pt(1)[1])), "00" * (min(env.get("len", 0), 400)) or "-")]
            if ln is None:
                n = tm.var("len", 64, 0, (1 << 63) - 1)
                k = R.eng.new_heap(R.st, tuple(byte("b%d" % i) for i in range(128)))
                for bad in (33, 64, 65):
                    R.st.assume(tm.not_b(tm.eq(64, n, bad)))
                p = Ptr(k, (), 1, 0, n)
            else:
                b = I.comp() if ln == 33 else I.full() if ln == 65 else I.xb + I.yb
                p = R.slice(b)
            pc0 = R.st.pc
            res = R.call(PK + "parse_slice", [p, fmt])
            right = f == "N" or ln == {"C": 33, "F": 65, "R": 64}[f]
            if ln is None or not right:
                for s, v in res:
                    cx.true(t + ": rejected", res_kind(v) == 1 or not R.possible(s.pc), mk({}))
            elif ln == 33:
                D.lifted.append(D.f.from_int(I.x))
                judge_comp(R, t, I, res, lambda v: v.f[0][0][0], mk)
            else:
                judge_full(R, t, I, res, lambda v: v.f[0][0][0], mk)
            R.valid(t + ": defined for every input", z3.Or([z3.And([B.b(c) for c in s.pc] + [z3.BoolVal(True)]) for s, _ in res] + [z3.BoolVal(False)]), pc0, mk)
            R.done(t, mk)


# ------------------------------------------------------------------ serialisation, equality, conversion
def bat_pkser(cx):
    rng = cx.rng
    out = []
    pts = [pt(k) for k in (1, 2, 3, 7, N - 1, N - 2)] + [pt(rng.randrange(1, N)) for _ in range(8)]
    pts += [q for x in (1, 2, 3, 4, N - 1, N, N + 1, P - 1, P - 2, P - 3) for o in (0, 1) for q in [ref.lift(x % P, o)] if q]
    pts += [(x, y) for y in range(1, 30) for x in [cube_root((y * y - 7) % P)] if x is not None]
    for q in pts:
        for _ in range(3):
            out.append("pk_ser " + gen.aff_tok(q, rng, 1))
        out.append("pk_ser " + gen.aff_tok(ref.neg(q)))
        out.append("serde_pk " + gen.aff_tok(q, rng, 1))
        out += ["pk_parse 04%s%s" % (hb(q[0]), hb(q[1])), "pk_parse_c %02x%s" % (2 + q[1] % 2, hb(q[0]))]
        for p2 in (q, ref.neg(q), (q[0], (q[1] + 1) % P), (q[0] * gen.BETA % P, q[1])):
            a, b = gen.fe_any(rng, p2[0]), gen.fe_any(rng, p2[1])
            for i in (0, 1):
                out.append("pk_try_from %s %s %d" % (a, b, i))
    for v in ((0, 0), (0, 1), (1, 0), (5, 5)):
        out += ["pk_try_from n:%s n:%s %d" % (hx(v[0]), hx(v[1]), i) for i in (0, 1)]
    return out


def mk_pt(env):
    out = []
    for q in (pt(1), pt(2), ref.neg(pt(1)), ref.neg(pt(2))):
        out += ["pk_ser " + gen.aff_tok(q)]
    for o in (0, 1):
        q = ref.lift(env.get("X#Q", 1), o)
        if q:
            out.append("pk_ser " + gen.aff_tok(q))
    return out


@lemma("K.pkser", "every finite point, coordinates unreduced of magnitude <= 8", bat_pkser, FADD)
def k_pkser(cx):
    for fn, n in (("serialize", 65), ("serialize_compressed", 33)):
        R = Run(cx)
        D, B = R.D, R.B
        Q = D.base("Q")
        X, Y = D.coords(Q)
        res = R.call(PK + fn, [R.heap((D.affine(Q),))])
        xc, yc = D.f.canon(X), D.f.canon(Y)
        for s, v in res:
            if n == 65:
                want = (4,) + bytes_be(xc) + bytes_be(yc)
            else:
                want = (tm.or_(8, 2, tm.zext(8, D.f.parity(Y), 1)),) + bytes_be(xc)
            R.valid(fn + ": the canonical bytes", same_bytes(R, v, want), s.pc, mk_pt)
            # and back
            s2 = s.fork()
            p = Ptr(R.eng.new_heap(s2, v))
            back = R.call(PK + ("parse" if n == 65 else "parse_compressed"), [p], s2)
            for s3, w in back:
                if not R.possible(s3.pc):
                    continue
                cx.true(fn + ": parses back", res_kind(w) == 0, mk_pt({}))
                if res_kind(w) == 0:
                    s4 = s3.fork()
                    a, b = Ptr(R.eng.new_heap(s4, (D.affine(Q),))), Ptr(R.eng.new_heap(s4, w.f[0][0]))
                    for s5, e in R.call("<libsecp256k1::PublicKey as std::cmp::PartialEq>::eq", [a, b], s4):
                        R.valid(fn + ": parses back to an equal key", B.b(e), s5.pc, mk_pt)
        R.cover(fn, [s for s, _ in res], mk_pt)
        R.done(fn, mk_pt)
    # equality is equality of points
    R = Run(cx)
    D, B = R.D, R.B
    Q, W = D.base("Q"), D.base("W")
    (qx, qy), (wx, wy) = D.coords(Q), D.coords(W)
    res = R.call("<libsecp256k1::PublicKey as std::cmp::PartialEq>::eq", [R.heap((D.affine(Q),)), R.heap((D.affine(W),))])
    want = z3.And(B.z(D.f.canon(qx), 256) == B.z(D.f.canon(wx), 256), B.z(D.f.canon(qy), 256) == B.z(D.f.canon(wy), 256))
    for s, v in res:
        R.valid("eq: same point", B.b(v) == want, s.pc, mk_pt)
    R.cover("eq", [s for s, _ in res], mk_pt)
    R.done("eq", mk_pt)
    # conversions
    R = Run(cx)
    D, B = R.D, R.B
    X, Y = D.f.one("x"), D.f.one("y")
    inf = tm.var("inf", 1)

    def mk(env):
        x, y = env.get("x", 1), env.get("y", 1)
        out = ["pk_try_from n:%s n:%s %d" % (hx(x), hx(y), env.get("inf", 0))]
        for q in (pt(1), pt(2)):
            out += ["pk_try_from n:%s n:%s %d" % (hx(q[0]), hx(q[1]), i) for i in (0, 1)]
        return out
    res = R.call("<libsecp256k1::PublicKey as std::convert::TryFrom<libsecp256k1::curve::Affine>>::try_from", [(FE(X, MAG, 0), FE(Y, MAG, 0), inf)])
    on = D.f.zero_test(D.f.reduce(psub(ppow(Y, 2), padd(ppow(X, 3), const(7)))))
    for s, v in res:
        want = z3.And(z3.Not(B.b(inf)), B.b(on))
        if res_kind(v) == 1:
            R.valid("try_from: only invalid points are rejected", z3.Not(want), s.pc, mk)
            continue
        R.valid("try_from: only points are accepted", want, s.pc, mk)
        q = v.f[0][0][0]
        cx.true("try_from: the same point", D.f.lift(q[0]).p == X and D.f.lift(q[1]).p == Y and (q[2] is inf or q[2] == 0), mk({}))
    R.cover("try_from", [s for s, _ in res], mk)
    R.done("try_from", mk)
    R = Run(cx)
    D = R.D
    a = D.affine(D.base("Q"))
    for s, v in R.call("<libsecp256k1::PublicKey as std::convert::Into<libsecp256k1::curve::Affine>>::into", [(a,)]):
        cx.true("into: the same point", v == a)


# ------------------------------------------------------------------ secret keys
def bat_sk(cx):
    rng = cx.rng
    out = []
    vs = [0, 1, 2, N - 2, N - 1, N, N + 1, N + 2, (1 << 256) - 1, (1 << 256) - 2, 1 << 255, ref.HALF, ref.HALF + 1, P, P - 1, 2 * N - (1 << 256) if 2 * N > 1 << 256 else 5]
    for i in range(8):
        vs += [N + (1 << (32 * i)) if N + (1 << (32 * i)) < 1 << 256 else 1 << (32 * i), N - (1 << (32 * i)), 1 << (32 * i), ((1 << (32 * i)) - 1)]
    vs += [rng.randrange(1 << 256) for _ in range(30)]
    for v in vs:
        v %= 1 << 256
        out += ["sk_parse " + hb(v), "sk_parse_slice " + hb(v), "sk_try_from " + hx(v % N), "sk_ser " + hx(v % N), "msg_ser " + hx(v % N),
                "msg_parse " + hb(v), "msg_parse_slice " + hb(v)]
    for n in range(0, 70):
        out.append("sk_parse_slice " + ("01" * n or "-"))
        out.append("msg_parse_slice " + ("01" * n or "-"))
    out.append("sk_default")
    good = [hb(v) for v in (1, N - 1, 77)]
    bad = [hb(v) for v in (0, N, N + 1, (1 << 256) - 1)]
    for a in good:
        out.append("sk_random " + a)
        for b in bad:
            out += ["sk_random " + b + a, "sk_random " + b + b + a, "sk_random " + bad[0] + b + bad[1] + a, "sk_random " + a + b]
    return out


def sym_len(R, n, extra=()):
    """a slice of every length but n"""
    ln = tm.var("len", 64, 0, (1 << 63) - 1)
    k = R.eng.new_heap(R.st, tuple(byte("b%d" % i) for i in range(128)))
    R.st.assume(tm.not_b(tm.eq(64, ln, n)))
    return Ptr(k, (), 1, 0, ln)


def refused(cx, R, t, res, mk=None):
    B = R.B
    for s, v in res:
        cx.true(t + ": rejected", res_kind(v) == 1 or not R.possible(s.pc), mk({}) if mk else ())


def covers(R, t, pc0, res, mk=None):
    B = R.B
    R.valid(t + ": defined for every input", z3.Or([z3.And([B.b(c) for c in s.pc] + [z3.BoolVal(True)]) for s, _ in res] + [z3.BoolVal(False)]), pc0, mk)


@lemma("K.sk", "every 32-byte string, every length (symbolic), every scalar; random generation: every generator output, up to 3 draws", bat_sk, ASSUME[:1])
def k_sk(cx):
    mk = lambda op: lambda env: [op + " " + hb(env.get("v", 1)), op + " " + hb(N), op + " " + hb(0)]
    for fn in ("parse", "parse_slice"):
        R = Run(cx)
        D, B = R.D, R.B
        v = v256("v")
        b = D.ints.split(v)
        m = mk("sk_" + fn)
        res = R.call(SK + fn, [R.heap(b) if fn == "parse" else R.slice(b)])
        vz = B.z(v, 256)
        good = z3.And(vz != 0, z3.ULT(vz, z3.BitVecVal(N, 256)))
        for s, x in res:
            if not R.possible(s.pc):
                continue
            if res_kind(x) == 1:
                R.valid(fn + ": only invalid keys are rejected", z3.Not(good), s.pc, m)
                continue
            R.valid(fn + ": only 1..n-1 is accepted", good, s.pc, m)
            k = x.f[0][0]
            R.valid(fn + ": the key is the value", B.z(D.s.canon(D.lift(k[0]).p), 256) == vz, s.pc, m)
            s2 = s.fork()
            for s3, y in R.call(SK + "serialize", [Ptr(R.eng.new_heap(s2, k))], s2):
                R.valid(fn + ": serialises to the same bytes", same_bytes(R, y, b), s3.pc, m)
            s2 = s.fork()
            for s3, y in R.call(SK + "is_zero", [Ptr(R.eng.new_heap(s2, k))], s2):
                R.valid(fn + ": not zero", z3.Not(B.b(y)), s3.pc, m)
        R.cover(fn, [s for s, _ in res], m)
        R.done(fn, m)
    R = Run(cx)
    p = sym_len(R, 32)
    pc0 = R.st.pc
    m = lambda env: ["sk_parse_slice " + ("01" * min(env.get("len", 31), 400) or "-")]
    res = R.call(SK + "parse_slice", [p])
    refused(cx, R, "parse_slice, other length", res, m)
    covers(R, "parse_slice, other length", pc0, res, m)
    R.done("parse_slice, other length", m)
    # conversion, serialisation, default
    R = Run(cx)
    D, B = R.D, R.B
    a = D.sc("a")
    ms = lambda env: ["sk_try_from " + hx(env.get("a", 1)), "sk_ser " + hx(env.get("a", 1)), "sk_try_from " + hx(0)]
    res = R.call("<libsecp256k1::SecretKey as std::convert::TryFrom<libsecp256k1::curve::Scalar>>::try_from", [a])
    at = B.z(D.s.canon(a.p), 256)
    for s, x in res:
        R.valid("try_from: rejects exactly zero", (at == 0) == z3.BoolVal(res_kind(x) == 1), s.pc, ms)
        if res_kind(x) == 0:
            is_scalar(R, "try_from: the same scalar", x.f[0][0][0], a.p, s.pc, ms)
    R.cover("try_from", [s for s, _ in res], ms)
    for s, x in R.call("<libsecp256k1::SecretKey as std::convert::Into<libsecp256k1::curve::Scalar>>::into", [(a,)]):
        is_scalar(R, "into: the same scalar", x, a.p, s.pc)
    for s, x in R.call(SK + "serialize", [R.heap((a,))]):
        R.valid("serialize: canonical bytes", same_bytes(R, x, bytes_be(D.s.canon(a.p))), s.pc, ms)
    for s, x in R.call(SK + "is_zero", [R.heap((a,))]):
        R.valid("is_zero", B.b(x) == (at == 0), s.pc, ms)
    for s, x in R.call("<libsecp256k1::SecretKey as std::default::Default>::default", []):
        is_scalar(R, "default is one", x[0], const(1, N), s.pc)
    R.done("try_from, serialize", ms)
    # random
    draws = []
    tab = Table()

    @tab.on("<vharness::HRng as rand::RngCore>::fill_bytes", "<vharness::HRng as rand::RngCore>::try_fill_bytes")
    def fill(eng, st, a, cal):
        i = st.aux.get("draws", 0)
        if a[1].meta != 32:
            raise Unsupported("draw of %r bytes" % (a[1].meta,))
        if i >= 3:
            st.assume(0)
            return Outcomes([])
        st.aux["draws"] = i + 1
        while len(draws) <= i:
            draws.append(v256("draw%d" % len(draws)))
        eng.store(st, a[1], D.ints.split(draws[i]))
        return () if "try" not in cal["name"] else E(0, {0: ((),)})
    R = Run(cx, extra=[tab])
    D, B = R.D, R.B

    def mr(env):
        return ["sk_random " + "".join(hb(env.get("draw%d" % i, 1)) for i in range(3)) + hb(5)]
    res = R.call("libsecp256k1::SecretKey::random::<vharness::HRng>", [R.heap((0,))])
    ok = lambda i: z3.And(B.z(draws[i], 256) != 0, z3.ULT(B.z(draws[i], 256), z3.BitVecVal(N, 256)))
    for s, x in res:
        if not R.possible(s.pc):
            continue
        n = s.aux.get("draws", 0)
        if not cx.true("random: draws from the generator", n > 0, mr({})):
            continue
        R.valid("random: the first draw that parses", z3.And([z3.Not(ok(i)) for i in range(n - 1)] + [ok(n - 1)]), s.pc, mr)
        R.valid("random: the key is that draw", B.z(D.s.canon(D.lift(x[0]).p), 256) == B.z(draws[n - 1], 256), s.pc, mr)
    covers(R, "random", [z3.Or([ok(i) for i in range(3)])], res, mr)
    R.done("random", mr)


# ------------------------------------------------------------------ compact signatures, messages
def bat_sig(cx):
    rng = cx.rng
    out = []
    vs = [0, 1, N - 1, N, N + 1, (1 << 256) - 1, 1 << 255, ref.HALF, ref.HALF + 1] + [rng.randrange(1 << 256) for _ in range(4)]
    for r in vs:
        for s in vs:
            b = hb(r) + hb(s)
            out += ["%s %s" % (op, b) for op in ("sig_std", "sig_std_slice", "sig_ovf", "sig_ovf_slice")]
            out.append("sig_ser %s %s" % (hx(r % N), hx(s % N)))
            out.append("sig_norm %s %s" % (hx(r % N), hx(s % N)))
    for d in range(-3, 4):
        out.append("sig_norm %s %s" % (hx(7), hx(ref.HALF + d)))
        out.append("sig_norm %s %s" % (hx(ref.HALF + d), hx(7)))
    for i in range(8):
        for d in (-1, 0, 1):
            out.append("sig_norm %s %s" % (hx(7), hx((ref.HALF + (d << (32 * i))) % N)))
    for n in range(0, 140):
        for op in ("sig_std_slice", "sig_ovf_slice"):
            out.append("%s %s" % (op, "01" * n or "-"))
    return out + bat_sk(cx)


@lemma("K.sig", "every 64-byte string, every length (symbolic), every message", bat_sig, ASSUME[:1])
def k_sig(cx):
    for fn, op in (("parse_standard", "sig_std"), ("parse_standard_slice", "sig_std_slice"), ("parse_overflowing", "sig_ovf"), ("parse_overflowing_slice", "sig_ovf_slice")):
        R = Run(cx)
        D, B = R.D, R.B
        r, s_ = v256("r"), v256("s")
        b = D.ints.split(r) + D.ints.split(s_)
        m = lambda env, op=op: ["%s %s%s" % (op, hb(env.get("r", 1)), hb(env.get("s", 1))), "%s %s%s" % (op, hb(N), hb(N - 1)), "%s %s%s" % (op, hb(1), hb(2))]
        sl = fn.endswith("slice")
        res = R.call(SG + fn, [R.slice(b) if sl else R.heap(b)])
        nb = z3.BitVecVal(N, 256)
        good = z3.And(z3.ULT(B.z(r, 256), nb), z3.ULT(B.z(s_, 256), nb))
        for s, x in res:
            if not R.possible(s.pc):
                continue
            if fn == "parse_overflowing":
                sig = x
            else:
                if res_kind(x) == 1:
                    if fn == "parse_overflowing_slice":
                        R.impossible(fn + ": accepted", s.pc, m)
                    else:
                        R.valid(fn + ": only values not below n are rejected", z3.Not(good), s.pc, m)
                    continue
                sig = x.f[0][0]
            if "standard" in fn:
                R.valid(fn + ": accepts only values below n", good, s.pc, m)
            for nm, got, w in (("r", sig[0], r), ("s", sig[1], s_)):
                R.valid("%s: %s is kept modulo n" % (fn, nm), B.z(D.s.canon(D.lift(got).p), 256) == B.z(D.s.reduced(w), 256), s.pc, m)
            if "standard" in fn:
                s2 = s.fork()
                for s3, y in R.call(SG + "serialize", [Ptr(R.eng.new_heap(s2, sig))], s2):
                    R.valid(fn + ": serialises to the same bytes", same_bytes(R, y, b), s3.pc, m)
        R.cover(fn, [s for s, _ in res], m)
        R.done(fn, m)
        if sl:
            R = Run(cx)
            p = sym_len(R, 64)
            pc0 = R.st.pc
            m2 = lambda env, op=op: ["%s %s" % (op, "01" * min(env.get("len", 63), 400) or "-")]
            res = R.call(SG + fn, [p])
            refused(cx, R, fn + ", other length", res, m2)
            covers(R, fn + ", other length", pc0, res, m2)
            R.done(fn + ", other length", m2)
    R = Run(cx)
    D, B = R.D, R.B
    r, s_ = D.sc("r"), D.sc("s")
    m = lambda env: ["sig_ser %s %s" % (hx(env.get("r", 1)), hx(env.get("s", 2)))]
    for s, y in R.call(SG + "serialize", [R.heap((r, s_))]):
        R.valid("serialize: r then s", same_bytes(R, y, bytes_be(D.s.canon(r.p)) + bytes_be(D.s.canon(s_.p))), s.pc, m)
    # messages
    for fn in ("parse", "parse_slice"):
        R = Run(cx)
        D, B = R.D, R.B
        v = v256("v")
        b = D.ints.split(v)
        m = lambda env, fn=fn: ["msg_%s %s" % (fn, hb(env.get("v", 1))), "msg_%s %s" % (fn, hb(N + 1))]
        res = R.call(MS + fn, [R.slice(b) if fn != "parse" else R.heap(b)])
        for s, x in res:
            if not R.possible(s.pc):
                continue
            if fn != "parse":
                if not cx.true(fn + ": accepted", res_kind(x) == 0, m({})):
                    continue
                x = x.f[0][0]
            R.valid("message %s: value modulo n" % fn, B.z(D.s.canon(D.lift(x[0]).p), 256) == B.z(D.s.reduced(v), 256), s.pc, m)
        R.cover("message " + fn, [s for s, _ in res], m)
        R.done("message " + fn, m)
    R = Run(cx)
    p = sym_len(R, 32)
    pc0 = R.st.pc
    m = lambda env: ["msg_parse_slice " + ("01" * min(env.get("len", 31), 400) or "-")]
    res = R.call(MS + "parse_slice", [p])
    refused(cx, R, "message, other length", res, m)
    covers(R, "message, other length", pc0, res, m)
    R.done("message, other length", m)
    R = Run(cx)
    D, B = R.D, R.B
    a = D.sc("a")
    m = lambda env: ["msg_ser " + hx(env.get("a", 1))]
    for s, x in R.call(MS + "serialize", [R.heap((a,))]):
        R.valid("message serialize: canonical bytes", same_bytes(R, x, bytes_be(D.s.canon(a.p))), s.pc, m)


@lemma("K.norm", "every r and s; verification: every message and public key", bat_sig, ASSUME)
def k_norm(cx):
    mk = lambda env: ["sig_norm %s %s" % (hx(env.get("r", 1)), hx(env.get("s", 2)))] + ["sig_norm %s %s" % (hx(3), hx(ref.HALF + d)) for d in (-1, 0, 1, 2)]
    for zero in ("r", "s", ""):
        R = Run(cx)
        D, B = R.D, R.B
        r = D.scp({}) if zero == "r" else D.sc("r", True)
        s_ = D.scp({}) if zero == "s" else D.sc("s", zero == "")
        m, Q = D.sc("m"), D.base("Q")
        ct = D.s.canon(s_.p)
        lo = tm.ult(256, (N - 1) // 2, ct)
        k = R.heap((r, s_))
        res = R.call(SG + "normalize_s", [k])
        t = "normalize_s" + (", %s = 0" % zero if zero else "")
        for s, _ in res:
            if not R.possible(s.pc):
                continue
            g = s.mem[k.a]
            is_scalar(R, t + ": r unchanged", g[0], r.p, s.pc, mk)
            g1 = D.lift(g[1])
            c2 = B.z(D.s.canon(g1.p), 256)
            R.valid(t + ": s or n - s", c2 == B.z(tm.ite(256, lo, tm.sub(256, N, ct) if isinstance(ct, T) else N - ct, ct), 256), s.pc, mk)
            R.valid(t + ": in the lower half", z3.ULE(c2, z3.BitVecVal((N - 1) // 2, 256)), s.pc, mk)
            s2 = s.fork()
            for s3, _ in R.call(SG + "normalize_s", [k], s2):
                if not R.possible(s3.pc):
                    continue
                h = s3.mem[k.a]
                R.valid(t + ": twice is the same as once", B.z(D.s.canon(D.lift(h[1]).p), 256) == c2, s3.pc, mk)
            # same verdict
            s2 = s.fork()
            H = lambda v: Ptr(R.eng.new_heap(s2, v))
            pm, pq, p0, p1, ctx = H((m,)), H((D.affine(Q),)), H((r, s_)), H((D.lift(g[0]), g1)), H(((),))
            for s3, a in R.call(L + "verify_with_context", [pm, p0, pq, ctx], s2):
                for s4, b in R.call(L + "verify_with_context", [pm, p1, pq, ctx], s3):
                    R.valid(t + ": same verdict", B.b(a) == B.b(b), s4.pc, mk)
        R.cover(t, [s for s, _ in res], mk)
        R.done(t, mk)


# ------------------------------------------------------------------ recovery ids
def bat_rid(cx):
    return ["%s %d" % (op, b) for op in ("rid_parse", "rid_parse_rpc") for b in range(256)]


@lemma("K.rid", "every byte", bat_rid)
def k_rid(cx):
    for fn, lo in (("parse", 0), ("parse_rpc", 27)):
        R = Run(cx)
        B = R.B
        b = byte("b")
        bz = B.z(b, 8)
        mk = lambda env, fn=fn: ["rid_%s %d" % (fn, env.get("b", 0))]
        res = R.call(RI + fn, [b])
        good = z3.And(z3.UGE(bz, lo), z3.ULE(bz, lo + 3))
        for s, v in res:
            if res_kind(v) == 1:
                R.valid(fn + ": only other bytes are rejected", z3.Not(good), s.pc, mk)
                continue
            R.valid(fn + ": accepts only %d..%d" % (lo, lo + 3), good, s.pc, mk)
            k = v.f[0][0]
            want = bz - lo
            R.valid(fn + ": the value", B.z(k[0], 8) == want, s.pc, mk)
            s2 = s.fork()
            for s3, x in R.call(RI + "serialize", [Ptr(R.eng.new_heap(s2, k))], s2):
                R.valid(fn + ": serialize", B.z(x, 8) == want, s3.pc, mk)
            for ty, w in (("u8", 8), ("i32", 32)):
                for s3, x in R.call("<libsecp256k1::RecoveryId as std::convert::Into<%s>>::into" % ty, [k], s.fork()):
                    R.valid(fn + ": into " + ty, B.z(x, w) == (want if w == 8 else z3.ZeroExt(24, want)), s3.pc, mk)
        R.cover(fn, [s for s, _ in res], mk)
        R.done(fn, mk)


# ------------------------------------------------------------------ tweaks
def bat_sktweak(cx):
    rng = cx.rng
    out = []
    ks = [1, 2, N - 1, N - 2, ref.HALF, ref.HALF + 1, 1 << 255] + [rng.randrange(1, N) for _ in range(5)]
    for a in ks:
        for t in ks + [0, N - a]:
            out += ["sk_tweak_add %s %s" % (hx(a), hx(t % N)), "sk_tweak_mul %s %s" % (hx(a), hx(t % N))]
        out.append("sk_tweak_mul %s %s" % (hx(a), hx(pow(a, -1, N))))
        out.append("sk_inv %s" % hx(a))
    out.append("sk_tweak_add %s %s" % (hx(0), hx(0)))
    return out


@lemma("K.sktweak", "every key 1..n-1 and every tweak 0..n-1", bat_sktweak, ASSUME[:1])
def k_sktweak(cx):
    for op in ("add", "mul"):
        R = Run(cx)
        D, B = R.D, R.B
        a, t_ = D.sc("a", True), D.sc("t", op == "mulu")
        mk = lambda env, op=op: ["sk_tweak_%s %s %s" % (op, hx(env.get("a", 1)), hx(x % N)) for x in (env.get("t", 1), 0, 1, N - env.get("a", 1))]
        want = padd(a.p, t_.p, 1, N) if op == "add" else pmul(a.p, t_.p, N)
        k = R.heap((a,))
        res = R.call(SK + "tweak_%s_assign" % op, [k, R.heap((t_,))])
        nm = "tweak_%s_assign" % op
        z = B.b(D.s.zero_test(want))
        for s, v in res:
            if not R.possible(s.pc):
                continue
            R.valid(nm + ": error exactly when the result is zero", z == z3.BoolVal(res_kind(v) == 1), s.pc, mk)
            g = s.mem[k.a][0]
            if res_kind(v) == 1:
                is_scalar(R, nm + ": the key is unchanged on error", g, a.p, s.pc, mk)
            else:
                is_scalar(R, nm + ": exact", g, want, s.pc, mk)
        R.cover(nm, [s for s, _ in res], mk)
        R.done(nm, mk)
    R = Run(cx)
    D = R.D
    a = D.sc("a", True)
    mk = lambda env: ["sk_inv " + hx(env.get("a", 1)), "sk_inv " + hx(2)]
    for s, v in R.call(SK + "inv", [R.heap((a,))]):
        is_scalar(R, "inv: times the key is one", SC(D.s, pmul(D.lift(v[0]).p, a.p, N)), const(1, N), s.pc, mk)
    R.done("inv", mk)


def bat_pktweak(cx):
    rng = cx.rng
    out = []
    ds = [1, 2, 3, N - 1, N - 2, ref.HALF] + [rng.randrange(1, N) for _ in range(3)]
    for d in ds:
        for t in [0, 1, 2, N - 1, N - d, d, rng.randrange(N)]:
            q = pt(d)
            out += ["pk_tweak_%s %s %s" % (op, gen.aff_tok(q, rng, 1), hx(t % N)) for op in ("add", "mul")]
        out.append("pk_from_sk " + hx(d))
    A, Bp = pt(5), pt(7)
    C = ref.add(A, Bp)
    base = [A, Bp, C, ref.neg(A), ref.neg(Bp), ref.neg(C), pt(10), pt(N - 10)]
    import itertools
    lists = [()] + [x for n in (1, 2) for x in itertools.product(base, repeat=n)]
    lists += [tuple(rng.choice(base) for _ in range(n)) for n in (3, 3, 3, 4, 4, 5) for _ in range(8)]
    lists += [(A, ref.neg(A), Bp), (A, Bp, ref.neg(C)), (A, A, A), (A, Bp, ref.neg(C), A), (A, ref.neg(A), A, ref.neg(A)), (A, A, ref.neg(pt(10))), (A, ref.neg(A), A)]
    b = (A[0] * gen.BETA % P, A[1])
    lists += [(A, ref.neg(b)), (A, b), (A, b, (b[0] * gen.BETA % P, A[1]))]
    for l in lists:
        out.append("pk_combine %d %s" % (len(l), " ".join(gen.aff_tok(q, rng, 1) for q in l)))
    return [x.strip() for x in out]


def bat_pktweak_mk(env):
    import random
    return []


def keyform(R, v):
    """the point of a PublicKey value"""
    return R.D.decode_affine(v[0])


@lemma("K.pktweak", "every finite public key, every tweak 0..n-1", bat_pktweak, ASSUME)
def k_pktweak(cx):
    for op in ("add", "mul"):
        for ctxd in (0, 1):
            for own in (0, 1):
                R = Run(cx)
                D, B = R.D, R.B
                d = None
                if own:     # the key derived from a secret key: matches the secret-key tweak
                    d = D.sc("d", True)
                    Q = D.fscale(D.base("G"), d.p)
                else:
                    Q = D.base("Q")
                t_ = D.sc("t")
                q0 = D.affine(Q)
                k = R.heap((q0,))
                nm = "tweak_%s_assign%s%s" % (op, "_with_context" if ctxd else "", ", derived key" if own else "")
                want = D.fadd(Q, D.fscale(D.base("G"), t_.p)) if op == "add" else D.fscale(Q, t_.p)
                mk = lambda env, op=op: ["pk_tweak_%s %s %s" % (op, gen.aff_tok(pt(env.get("d", 3))), hx(x % N)) for x in (env.get("t", 1), 0, 1, N - env.get("d", 3))]
                res = R.call(PK + "tweak_%s_assign%s" % (op, "_with_context" if ctxd else ""), [k, R.heap((t_,))] + ([R.heap(((),))] if ctxd else []))
                inf = B.b(D.isinf(want))
                for s, v in res:
                    if not R.possible(s.pc):
                        continue
                    R.valid(nm + ": error exactly at infinity", inf == z3.BoolVal(res_kind(v) == 1), s.pc, mk)
                    g = s.mem[k.a]
                    if res_kind(v) == 1:
                        cx.true(nm + ": the key is unchanged on error", D.fkey(keyform(R, g)) == D.fkey(Q), mk({}))
                        continue
                    cx.true(nm + ": exact", D.fkey(keyform(R, g)) == D.fkey(D.fnorm(want)), mk({}), detail=str(g))
                    cx.true(nm + ": finite", g[0][2] == 0)
                    field_mag(R, nm, g[0][0])
                    field_mag(R, nm, g[0][1])
                    if own:
                        s2 = s.fork()
                        sk = Ptr(R.eng.new_heap(s2, (d,)))
                        for s3, v2 in R.call(SK + "tweak_%s_assign" % op, [sk, Ptr(R.eng.new_heap(s2, (t_,)))], s2):
                            if not R.possible(s3.pc):
                                continue
                            cx.true(nm + ": the secret-key tweak succeeds too", res_kind(v2) == 0, mk({}))
                            for s4, pk in R.call(PK + "from_secret_key", [sk], s3):
                                if R.possible(s4.pc):
                                    cx.true(nm + ": same as tweaking the secret key", pk[0][2] == 0 and D.fkey(keyform(R, pk)) == D.fkey(keyform(R, g)), mk({}))
                R.cover(nm, [s for s, _ in res], mk)
                R.done(nm, mk)


@lemma("K.combine", "every list of 0 to 4 public keys (5 thorough), including equal and opposite ones", bat_pktweak, ASSUME, timeout=600)
def k_combine(cx):
    top = 5 if cx.tier == "thorough" else 4
    for n in range(top + 1):
        R = Run(cx)
        D, B = R.D, R.B
        keys = [D.base("K%d" % i) for i in range(n)]
        nm = "combine of %d" % n
        mk = None
        res = R.call(PK + "combine", [R.slice([(D.affine(q),) for q in keys])])
        want = {}
        for q in keys:
            want = D.fadd(want, q)
        inf = B.b(D.isinf(want))
        for s, v in res:
            if not R.possible(s.pc):
                continue
            R.valid(nm + ": error exactly at infinity", inf == z3.BoolVal(res_kind(v) == 1), s.pc, mk)
            if res_kind(v) == 0:
                g = v.f[0][0]
                d = D.fadd(keyform(R, g), D.fneg(want))
                R.valid(nm + ": the sum", B.b(D.isinf(d)), s.pc, mk)
                cx.true(nm + ": finite", g[0][2] == 0)
        R.cover(nm, [s for s, _ in res], mk)
        R.done(nm, mk)


# ------------------------------------------------------------------ key derivation
def bat_pkfromsk(cx):
    rng = cx.rng
    return ["pk_from_sk " + hx(d) for d in [1, 2, 3, 15, 16, 17, N - 1, N - 2, ref.HALF, ref.HALF + 1] + [rng.randrange(1, N) for _ in range(20)]]


@lemma("K.pkfromsk", "every secret key 1..n-1", bat_pkfromsk, ASSUME)
def k_pkfromsk(cx):
    for fn in ("from_secret_key", "from_secret_key_with_context"):
        R = Run(cx)
        D = R.D
        d = D.sc("d", True)
        mk = lambda env: ["pk_from_sk " + hx(env.get("d", 1))]
        res = R.call(PK + fn, [R.heap((d,))] + ([R.heap(((),))] if "with" in fn else []))
        for s, v in res:
            if not R.possible(s.pc):
                continue
            cx.true(fn + ": finite", v[0][2] == 0, mk({}))
            cx.true(fn + ": d*G", D.fkey(keyform(R, v)) == D.fkey(D.fscale(D.base("G"), d.p)), mk({}))
            field_mag(R, fn, v[0][0])
            field_mag(R, fn, v[0][1])
        R.cover(fn, [s for s, _ in res], mk)
        R.done(fn, mk)


# ------------------------------------------------------------------ key exchange
def bat_ecdh(cx):
    rng = cx.rng
    out = []
    qs = [pt(k) for k in (1, 2, 3, N - 1)] + [pt(rng.randrange(1, N)) for _ in range(4)]
    for q in qs:
        for d in [0, 1, 2, 3, N - 1, N - 2, ref.HALF] + [rng.randrange(1, N) for _ in range(3)]:
            out += ["ecdh %s %s" % (gen.aff_tok(q, rng, 1), hx(d)), "shared %s %s" % (gen.aff_tok(q, rng, 1), hx(d))]
    return out


def sha_tab():
    """SHA-256 as an uninterpreted function of the bytes it is given: records what is hashed"""
    tab = Table()
    out = [byte("h%d" % i) for i in range(32)]

    def data(eng, st, p):
        v = eng.load(st, p)
        if isinstance(v, Ptr):
            v = eng.load(st, v)
        return tuple(v) if isinstance(v, tuple) else (v,)

    @tab.on(r"/<sha2::Sha256 as .*Default>::default", r"/<sha2::Sha256 as .*Digest>::new", r"/<sha2::digest::core_api::CoreWrapper<.*> as .*Default>::default",
            r"/<sha2::digest::core_api::CoreWrapper<.*> as .*Digest>::new")
    def dflt(eng, st, a, cal):
        return ("hash", ())

    def fed(h):
        if not (isinstance(h, tuple) and len(h) == 2 and h[0] == "hash"):
            raise Unsupported("digest state %r" % (h,))
        return h[1]

    @tab.on(r"/<sha2::(Sha256|digest.*) as .*Digest>::(update|input)(::<.*>)?")
    def upd(eng, st, a, cal):
        eng.store(st, a[0], ("hash", fed(eng.load(st, a[0])) + data(eng, st, a[1])))
        return ()

    @tab.on(r"/<sha2::(Sha256|digest.*) as .*Digest>::(chain_update|chain)(::<.*>)?")
    def chn(eng, st, a, cal):
        return ("hash", fed(a[0]) + data(eng, st, a[1]))

    @tab.on(r"/<sha2::(Sha256|digest.*) as .*Digest>::finalize(_reset)?")
    def fin(eng, st, a, cal):
        h = eng.load(st, a[0]) if isinstance(a[0], Ptr) else a[0]
        st.aux["hashed"] = st.aux.get("hashed", ()) + (fed(h),)
        if isinstance(a[0], Ptr):
            eng.store(st, a[0], ("hash", ()))
        return tuple(out)
    return tab, out


@lemma("K.ecdh", "every finite public key, every secret 0..n-1; SHA-256 as an uninterpreted function of the bytes it is given", bat_ecdh,
       ASSUME + ("the digest instance is a fresh one (Default) and its output is a function of the bytes passed to it",))
def k_ecdh(cx):
    for zero in (0, 1):
        for fn in ("ecdh_raw", "new_with_context", "new"):
            tab, out = sha_tab()
            R = Run(cx, extra=[tab])
            D, B = R.D, R.B
            Q = D.base("Q")
            d = D.scp({}) if zero else D.sc("d", True)
            if fn == "ecdh_raw":
                name, a = "libsecp256k1_core::ecdh::<impl libsecp256k1::curve::ECMultContext>::ecdh_raw::<sha2::Sha256>", [R.heap(((),)), R.heap(D.affine(Q)), R.heap(d)]
            else:
                name, a = L + "SharedSecret::<sha2::Sha256>::" + fn, [R.heap((D.affine(Q),)), R.heap((d,))] + ([R.heap(((),))] if fn != "new" else [])
            t = fn + (", zero secret" if zero else "")
            mk = lambda env: [o + " %s %s" % (gen.aff_tok(pt(k)), hx(env.get("d", 0 if zero else x))) for o in ("ecdh", "shared") for k in (1, 2, 3, 5) for x in (1, 2, 3)]
            res = R.call(name, a)
            X, Y = D.coords(D.fscale(Q, d.p)) if not zero else (None, None)
            for s, v in res:
                if not R.possible(s.pc):
                    continue
                ok = isinstance(v, E) and v.d == (1 if fn == "ecdh_raw" else 0)
                if zero:
                    cx.true(t + ": an error", not ok, mk({}))
                    continue
                if not cx.true(t + ": succeeds", ok, mk({})):
                    continue
                got = v.f[v.d][0]
                got = got if fn == "ecdh_raw" else got[0]
                cx.true(t + ": the digest", tuple(got) == tuple(out), mk({}))
                h = s.aux.get("hashed", ())
                if cx.true(t + ": one digest", len(h) == 1, mk({})):
                    want = (tm.or_(8, 2, tm.zext(8, D.f.parity(Y), 1)),) + bytes_be(D.f.canon(X))
                    R.valid(t + ": of the compressed point", same_bytes(R, h[0], want), s.pc, mk)
            R.cover(t, [s for s, _ in res], mk)
            R.done(t, mk)


# ------------------------------------------------------------------ deterministic signing
def bat_nonce(cx):
    rng = cx.rng
    out = []
    ds = [1, 2, N - 1, ref.HALF] + [rng.randrange(1, N) for _ in range(8)]
    ms = [0, 1, N - 1, N - 2] + [rng.randrange(N) for _ in range(8)]
    return ["sign %s %s" % (hx(m), hx(d)) for d in ds for m in ms]


class Drbg(execu.Abstract):
    pass


def drbg_tab(tab, top):
    """the HMAC-DRBG as an uninterpreted stream determined by what it is seeded with; [0] of the result is set to the domain"""
    draws = []
    dbox = [None, draws]

    def dat(eng, st, p):
        if p.meta == 0:
            return ()
        if not isinstance(p.meta, int) and p.mode == 1:
            raise Unsupported("symbolic seed length")
        return tuple(eng.load(st, p))

    @tab.on(r"/hmac_drbg::HmacDRBG::<sha2::Sha256>::new")
    def new(eng, st, a, cal):
        seed = tuple(dat(eng, st, p) for p in a)
        st.aux["seeds"] = st.aux.get("seeds", ()) + (seed,)
        st.aux["idx"] = 0
        return Drbg()

    def draw(eng, st, a):
        if not isinstance(eng.load(st, a[0]), Drbg):
            raise Unsupported("generator state")
        st.aux["adds"] = st.aux.get("adds", ()) + (a[-1],)
        i = st.aux.get("idx", 0)
        if i >= top:
            return None
        st.aux["idx"] = i + 1
        while len(draws) <= i:
            draws.append(v256("draw%d" % len(draws)))
        return dbox[0].ints.split(draws[i])

    @tab.on(r"/hmac_drbg::HmacDRBG::<sha2::Sha256>::generate::<.*>")
    def gen_(eng, st, a, cal):
        v = draw(eng, st, a)
        return Outcomes([]) if v is None else v

    @tab.on(r"/hmac_drbg::HmacDRBG::<sha2::Sha256>::generate_to_slice")
    def gen2(eng, st, a, cal):
        if a[1].meta != 32:
            raise Unsupported("draw of %r bytes" % (a[1].meta,))
        v = draw(eng, st, a)
        if v is None:
            return Outcomes([])
        eng.store(st, a[1], v)
        return ()
    return dbox


@lemma("K.nonce", "every secret key 1..n-1, every message, every generator output, up to 3 draws (4 thorough)", bat_nonce,
       ("scalar operations and sign_raw by their contracts (C05-C08, C17)", "the HMAC-DRBG as an uninterpreted stream determined by what it is seeded with"))
def k_nonce(cx):
    top = 4 if cx.tier == "thorough" else 3
    for fn in ("sign_with_context", "sign"):
        tab = Table()
        dbox = drbg_tab(tab, top)
        draws = dbox[1]

        @tab.on(EG + "sign_raw")
        def sraw(eng, st, a, cal):
            args = tuple(pkey(D.lift(eng.load(st, p)).p) for p in a[1:4])
            if args not in sigs:
                i = len(sigs)
                sigs[args] = (tm.var("fail%d" % i, 1), (D.sc("sr%d" % i, True), D.sc("ss%d" % i, True), tm.var("rid%d" % i, 8, 0, 3)))
            f, val = sigs[args]
            st.aux["signed"] = st.aux.get("signed", ()) + (args,)
            o = []
            for bad in (0, 1):
                s = st.fork()
                s.assume(f if bad else tm.not_b(f))
                o.append((s, E(1, {1: (E(0, {0: ()}),)}) if bad else E(0, {0: (val,)})))
            return Outcomes(o)
        sigs = {}
        R = Run(cx, extra=[tab])
        D, B = R.D, R.B
        dbox[0] = D
        d, m = D.sc("d", True), D.sc("m")
        mk = lambda env: ["sign %s %s" % (hx(a), hx(b)) for a, b in ((env.get("m", 1), env.get("d", 1)), (1, 2), (N - 1, N - 1), (0, 5))]
        res = R.call(L + fn, [R.heap((m,)), R.heap((d,))] + ([R.heap(((),))] if fn != "sign" else []))
        dp, mp = pkey(d.p), pkey(m.p)
        good = lambda i: z3.And(B.z(draws[i], 256) != 0, z3.ULT(B.z(draws[i], 256), z3.BitVecVal(N, 256)))
        want_seed = (bytes_be(D.s.canon(d.p)), bytes_be(D.s.canon(m.p)), ())
        done = []
        for s, v in res:
            if not R.possible(s.pc):
                continue
            sd = s.aux.get("seeds", ())
            if not cx.true(fn + ": one generator", len(sd) == 1, mk({})):
                continue
            for what, g, w in zip(("secret key", "message", "empty string"), sd[0], want_seed):
                R.valid(fn + ": seeded with the %s" % what, same_bytes(R, g, w), s.pc, mk)
            cx.true(fn + ": no additional input", all(isinstance(x, E) and x.d == 0 for x in s.aux.get("adds", ())), mk({}))
            n = s.aux.get("idx", 0)
            if not cx.true(fn + ": draws a nonce", n > 0, mk({})):
                continue
            # the nonce used is the last draw; earlier ones are zero, too large, or give s = 0
            last = None
            conds = []
            for i in range(n):
                kp = pkey(D.s.from_int(draws[i]))
                ent = sigs.get((dp, mp, kp))
                if i == n - 1:
                    last = ent
                    conds.append(good(i))
                    if ent:
                        conds.append(z3.Not(B.b(ent[0])))
                else:
                    conds.append(z3.Or(z3.Not(good(i)), B.b(ent[0])) if ent else z3.Not(good(i)))
            R.valid(fn + ": the first usable output", z3.And(conds), s.pc, mk)
            if not cx.true(fn + ": signs the message with the key and that nonce", last is not None, mk({}), detail=str(list(sigs))):
                continue
            (r, s_), rid = v
            is_scalar(R, fn + ": r", r, last[1][0].p, s.pc, mk)
            is_scalar(R, fn + ": s", s_, last[1][1].p, s.pc, mk)
            R.valid(fn + ": recovery id", B.z(rid[0] if isinstance(rid, tuple) else rid, 8) == B.z(last[1][2], 8), s.pc, mk)
        # every input whose stream has a usable output within the bound is signed
        use = []
        for i in range(top):
            e = sigs.get((dp, mp, pkey(D.s.from_int(draws[i])))) if i < len(draws) else None
            if e:
                use.append(z3.And(good(i), z3.Not(B.b(e[0]))))
        covers(R, fn, [z3.Or(use + [z3.BoolVal(False)])] if use else [], res, mk)
        R.done(fn, mk)


# ------------------------------------------------------------------ clearing
def bat_clear(cx):
    rng = cx.rng
    vs = [1, N - 1, ref.HALF] + [1 << (32 * i) for i in range(8)] + [rng.randrange(1, N) for _ in range(6)]
    out = ["sk_clear " + hx(v) for v in vs] + ["s_clear " + hx(v) for v in vs]
    for x in gen.fe_raw(rng, 8, 60):
        out.append("f_clear " + x)
    return out


@lemma("K.clear", "every content of every word", bat_clear)
def k_clear(cx):
    def limbs(p, n):
        return tuple(tm.var("%s%d" % (p, i), 32) for i in range(n))

    def fe(p):
        return (limbs(p, 10), tm.var(p + "m", 32), tm.var(p + "n", 1))

    def sz(eng, st, B, what, v):
        flat = []

        def walk(x):
            if isinstance(x, (tuple, list)):
                for y in x:
                    walk(y)
            else:
                flat.append(x)
        walk(v)
        for i, x in enumerate(flat):
            cx.valid("%s: word %d is zero" % (what, i), B, B.z(x, 32) == 0 if isinstance(x, T) else z3.BoolVal(x == 0), st.pc, mk)
    mk = lambda env: [o + hx((1 << 256) - 1 >> 1) for o in ("sk_clear ", "s_clear ")]
    for name, val, parts in (
            (L + "curve::Field::clear", fe("a"), lambda v: [v[0]]),
            (L + "curve::Scalar::clear", (limbs("a", 8),), lambda v: [v[0]]),
            (SK + "clear", ((limbs("a", 8),),), lambda v: [v[0][0]]),
            (L + "curve::Affine::clear", (fe("x"), fe("y"), tm.var("i", 1)), lambda v: [v[0][0], v[1][0]]),
            (L + "curve::Jacobian::clear", (fe("x"), fe("y"), fe("z"), tm.var("i", 1)), lambda v: [v[0][0], v[1][0], v[2][0]])):
        B = cx.bv()
        eng = cx.engine(feas=B.feas)
        st = execu.State()
        k = eng.new_heap(st, val)
        res = cx.call(eng, st, name, [Ptr(k)])
        t = name.split("::", 1)[1]
        for s, _ in res:
            for pvals in parts(s.mem[k]):
                sz(eng, s, B, t, pvals)
            if name == SK + "clear":
                for s2, z in cx.call(eng, s.fork(), SK + "is_zero", [Ptr(k)]):
                    cx.valid(t + ": reported as zero", B, B.b(z), s2.pc, mk)
        cx.valid(t + ": defined for every input", B, z3.Or([z3.And([B.b(c) for c in s.pc] + [z3.BoolVal(True)]) for s, _ in res] + [z3.BoolVal(False)]), (), mk)
        cx.obligations(t, eng, B, (), mk)
