"""Judges one replay line against its native output.  judge(line, out) -> None | message.

The oracle uses Python integers only (vlib/ref.py)."""
import base64
import hashlib
from . import ref
from .ref import P, N

R_ = {1: lambda i: 0x3ffffff if i < 9 else 0x3fffff}


class Bad(Exception):
    pass


class Fe:
    def __init__(self, v, mag, norm, limbs):
        self.v, self.mag, self.norm, self.limbs = v, mag, norm, limbs

    @property
    def m(self):
        return self.v % P


def in_fe(s):
    a, b = s.split(":")
    if a == "n":
        v = int(b, 16)
        return Fe(v, 1, 1, [(v >> (26 * i)) & 0x3ffffff for i in range(10)])
    l = [int(x) for x in b.split(",")]
    return Fe(sum(x << (26 * i) for i, x in enumerate(l)), int(a), 0, l)


def out_fe(s):
    """a field element printed by the replay program; checks its own representation claims"""
    m, n, b = s.split(":")
    l = [int(x) for x in b.split(",")]
    f = Fe(sum(x << (26 * i) for i, x in enumerate(l)), int(m), int(n), l)
    k = (1 if f.norm else 2) * f.mag
    for i, x in enumerate(l):
        if x > (0x3ffffff if i < 9 else 0x3fffff) * k:
            raise Bad("limb %d of the result exceeds its declared magnitude %d" % (i, f.mag))
    if f.norm and (f.mag > 1 or f.v >= P):
        raise Bad("result is marked normalised but is not")
    return f


class Toks:
    def __init__(self, s):
        self.t = s.split()
        self.i = 0

    def tok(self):
        self.i += 1
        return self.t[self.i - 1]

    def more(self):
        return self.i < len(self.t)

    def int(self):
        return int(self.tok())

    def bytes(self):
        s = self.tok()
        return b"" if s == "-" else bytes.fromhex(s)

    def sc(self):
        return int(self.tok(), 16)

    def fe(self):
        return in_fe(self.tok())

    def ofe(self):
        return out_fe(self.tok())

    def aff(self, rd=None):
        rd = rd or self.fe
        x, y, i = rd(), rd(), self.int()
        return None if i else (x.m, y.m)

    def oaff(self):
        return self.aff(self.ofe)

    def jac(self, rd=None):
        rd = rd or self.fe
        x, y, z, i = rd(), rd(), rd(), self.int()
        return jpt(x.m, y.m, z.m, i)

    def ojac(self):
        return self.jac(self.ofe)

    def ojac_raw(self):
        x, y, z, i = self.ofe(), self.ofe(), self.ofe(), self.int()
        return x, y, z, i


def jpt(x, y, z, inf):
    if inf:
        return None
    if z == 0:
        return "degenerate"
    zi = pow(z, -1, P)
    return x * zi * zi % P, y * zi**3 % P


def need(c, msg):
    if not c:
        raise Bad(msg)


def hx(v):
    return "%064x" % v


def same(got, want, what="result"):
    if isinstance(got, tuple) and isinstance(want, tuple) and got[:1] == want[:1] == ("Err",):
        return
    if got != want:
        raise Bad("%s: got %s, expected %s" % (what, show(got), show(want)))


def show(x):
    if isinstance(x, int):
        return hex(x)
    if isinstance(x, tuple):
        return "(" + ", ".join(show(y) for y in x) + ")"
    if isinstance(x, bytes):
        return x.hex()
    return str(x)


J = {}


def on(*names):
    def d(f):
        for n in names:
            J[n] = f
        return f
    return d


def judge(line, out):
    op = line.split(None, 1)[0]
    if out is None:
        return "no answer from the native program"
    try:
        if out.startswith("panic"):
            raise Bad("panicked: " + out[6:])
        a = Toks(line)
        a.tok()
        o = Toks(out)
        o.tok()
        J[op](a, o, op)
    except Bad as e:
        return str(e)
    return None


# ------------------------------------------------------------------ field
@on("f_mul")
def _(a, o, op):
    a.int()
    x, y = a.fe(), a.fe()
    r = o.ofe()
    same(r.m, x.m * y.m % P, "product mod p")
    need(r.mag <= 1, "magnitude of a product exceeds 1")


@on("f_sqr")
def _(a, o, op):
    a.int()
    x = a.fe()
    r = o.ofe()
    same(r.m, x.m * x.m % P, "square mod p")
    need(r.mag <= 1, "magnitude of a square exceeds 1")


@on("f_add")
def _(a, o, op):
    a.int()
    x, y = a.fe(), a.fe()
    r = o.ofe()
    same(r.m, (x.v + y.v) % P, "sum mod p")
    need(r.mag <= x.mag + y.mag, "magnitude of the sum")


@on("f_neg")
def _(a, o, op):
    a.int()
    m = a.int()
    x = a.fe()
    r = o.ofe()
    same(r.m, -x.v % P, "negation mod p")
    need(r.mag <= m + 1, "magnitude of the negation")


@on("f_mul_int")
def _(a, o, op):
    k = a.int()
    x = a.fe()
    r = o.ofe()
    same(r.m, x.v * k % P, "small multiple mod p")
    need(r.mag <= max(1, x.mag * k), "magnitude of the multiple")


@on("f_set_int")
def _(a, o, op):
    same(o.ofe().m, a.int() % P)


@on("f_norm", "f_norm_var")
def _(a, o, op):
    x = a.fe()
    r = o.ofe()
    need(r.norm == 1 and r.v < P, "result is not normalised")
    same(r.v, x.m, "normal form")


@on("f_norm_weak")
def _(a, o, op):
    x = a.fe()
    r = o.ofe()
    same(r.m, x.m, "weakly normalised value")
    need(r.mag <= 1, "magnitude after weak normalisation")


@on("f_ntz", "f_ntz_var", "f_is_zero")
def _(a, o, op):
    same(o.int(), int(a.fe().m == 0), "zero test")


@on("f_is_odd")
def _(a, o, op):
    same(o.int(), a.fe().m & 1, "parity")


@on("f_eq", "f_eq_var")
def _(a, o, op):
    x, y = a.fe(), a.fe()
    same(o.int(), int(x.m == y.m), "equality")


def cmp(x, y):
    return (x > y) - (x < y)


@on("f_cmp")
def _(a, o, op):
    x, y = a.fe(), a.fe()
    same(o.int(), cmp(x.m, y.m), "order")


@on("f_ord")
def _(a, o, op):
    x, y = a.fe(), a.fe()
    c = cmp(x.m, y.m)
    same((o.int(), o.int()), (c, c), "order")


@on("f_set_b32")
def _(a, o, op):
    v = int.from_bytes(a.bytes(), "big")
    ok = o.int()
    same(ok, int(v < P), "accepted")
    if v < P:
        f = o.ofe()
        same(f.v, v, "value read")
        need(f.norm, "value read is not normalised")


@on("f_b32")
def _(a, o, op):
    x = a.fe()
    same(o.bytes(), x.m.to_bytes(32, "big"), "b32")


@on("f_cmov")
def _(a, o, op):
    f, x, y = a.int(), a.fe(), a.fe()
    same(o.ofe().v, (y if f else x).v, "conditional move")


@on("f_inv", "f_inv_var")
def _(a, o, op):
    x = a.fe()
    same(o.ofe().m, pow(x.m, P - 2, P), "inverse")


@on("f_sqrt")
def _(a, o, op):
    x = a.fe()
    ok, r = o.int(), o.ofe()
    same(ok, int(ref.is_square(x.m)), "is a square")
    if ok:
        same(r.m * r.m % P, x.m, "square of the root")


@on("f_is_quad")
def _(a, o, op):
    same(o.int(), int(ref.is_square(a.fe().m)), "is a square")


@on("f_store")
def _(a, o, op):
    same(o.sc(), a.fe().m, "stored value")


@on("f_load")
def _(a, o, op):
    v = a.sc()
    f = o.ofe()
    same(f.v, v, "loaded value")


@on("f_clear")
def _(a, o, op):
    need(all(x == 0 for x in o.ofe().limbs), "limbs are not all zero after clear")


@on("f_new")
def _(a, o, op):
    v = a.sc()
    same(o.ofe().v, v, "constructed value")


@on("fs_cmov")
def _(a, o, op):
    f, x, y = a.int(), a.sc(), a.sc()
    same(o.sc(), y if f else x, "conditional move of storage")


# ------------------------------------------------------------------ scalar
@on("s_mul")
def _(a, o, op):
    a.int()
    same(o.sc(), a.sc() * a.sc() % N, "product mod n")


@on("s_sqr")
def _(a, o, op):
    a.int()
    same(o.sc(), pow(a.sc(), 2, N), "square mod n")


@on("s_add")
def _(a, o, op):
    a.int()
    same(o.sc(), (a.sc() + a.sc()) % N, "sum mod n")


@on("s_neg")
def _(a, o, op):
    a.int()
    same(o.sc(), -a.sc() % N, "negation mod n")


@on("s_cneg")
def _(a, o, op):
    f, x = a.int(), a.sc()
    same(o.sc(), -x % N if f else x, "conditional negation")


@on("s_is_high")
def _(a, o, op):
    same(o.int(), int(a.sc() > ref.HALF), "is_high")


@on("s_is_zero")
def _(a, o, op):
    same(o.int(), int(a.sc() == 0), "is_zero")


@on("s_is_one")
def _(a, o, op):
    same(o.int(), int(a.sc() == 1), "is_one")


@on("s_is_even")
def _(a, o, op):
    same(o.int(), 1 - (a.sc() & 1), "is_even")


@on("s_bits", "s_bits_var")
def _(a, o, op):
    f, c, x = a.int(), a.int(), a.sc()
    same(o.int(), (x >> f) & ((1 << c) - 1), "bits")


@on("s_shr_int")
def _(a, o, op):
    k, x = a.int(), a.sc()
    same((o.int(), o.sc()), (x & ((1 << k) - 1), x >> k), "shift")


@on("s_cadd_bit")
def _(a, o, op):
    k, f, x = a.int(), a.int(), a.sc()
    same(o.sc(), x + ((1 << k) if f else 0), "x + 2^k")


@on("s_set_int")
def _(a, o, op):
    same(o.sc(), a.int())


@on("s_set_b32")
def _(a, o, op):
    v = int.from_bytes(a.bytes(), "big")
    same((o.int(), o.sc()), (int(v >= N), v % N), "(overflow, value)")


@on("s_b32")
def _(a, o, op):
    x = a.sc()
    w = x.to_bytes(32, "big")
    same((o.bytes(), o.bytes()), (w, w), "bytes")


@on("s_inv")
def _(a, o, op):
    w = pow(a.sc(), N - 2, N)
    same((o.sc(), o.sc()), (w, w), "inverse")


@on("s_inv_var")
def _(a, o, op):
    same(o.sc(), pow(a.sc(), N - 2, N), "inverse")


@on("s_hex", "sk_hex")
def _(a, o, op):
    same(o.tok(), hx(a.sc()), "hex digits")


@on("s_clear")
def _(a, o, op):
    same(o.sc(), 0, "limbs after clear")


# ------------------------------------------------------------------ group
def zrel(o, rz, az, what):
    t = o.tok()
    if t != "none" and az is not None:
        same(rz % P, az * out_fe(t).m % P, what)


@on("j_double", "j_double_nonzero", "j_double_v")
def _(a, o, op):
    a.int()
    x, y, z, i = a.fe(), a.fe(), a.fe(), a.int()
    p = jpt(x.m, y.m, z.m, i)
    rx, ry, rz, ri = o.ojac_raw()
    same(jpt(rx.m, ry.m, rz.m, ri), ref.add(p, p), "double")
    zrel(o, rz.m, None if i else z.m, "r.z = a.z * rzr")


@on("j_add_var", "j_add_v")
def _(a, o, op):
    a.int()
    x, y, z, i = a.fe(), a.fe(), a.fe(), a.int()
    p = jpt(x.m, y.m, z.m, i)
    q = a.jac()
    rx, ry, rz, ri = o.ojac_raw()
    w = ref.add(p, q)
    same(jpt(rx.m, ry.m, rz.m, ri), w, "sum")
    zrel(o, 0 if ri else rz.m, None if i else z.m, "r.z = a.z * rzr")


@on("j_add_ge_var", "j_add_ge_var_v")
def _(a, o, op):
    a.int()
    x, y, z, i = a.fe(), a.fe(), a.fe(), a.int()
    p = jpt(x.m, y.m, z.m, i)
    q = a.aff()
    rx, ry, rz, ri = o.ojac_raw()
    same(jpt(rx.m, ry.m, rz.m, ri), ref.add(p, q), "sum")
    zrel(o, 0 if ri else rz.m, None if i else z.m, "r.z = a.z * rzr")


@on("j_add_ge", "j_add_ge_v")
def _(a, o, op):
    p, q = a.jac(), a.aff()
    same(o.ojac(), ref.add(p, q), "sum")


@on("j_add_zinv", "j_add_zinv_v")
def _(a, o, op):
    p = a.jac()
    x, y, i = a.fe(), a.fe(), a.int()
    zi = a.fe().m
    q = None if i else (x.m * zi * zi % P, y.m * zi**3 % P)
    same(o.ojac(), ref.add(p, q), "sum")


@on("j_neg")
def _(a, o, op):
    same(o.ojac(), ref.neg(a.jac()), "opposite point")


@on("j_rescale", "j_set_infinity")
def _(a, o, op):
    p = a.jac()
    same(o.ojac(), p if op == "j_rescale" else None, "point")


@on("j_set_ge")
def _(a, o, op):
    p = a.aff()
    same((o.ojac(), o.ojac()), (p, p), "point")


@on("j_eq_x")
def _(a, o, op):
    p, x = a.jac(), a.fe()
    same(o.int(), int(p[0] == x.m), "x equals")


@on("j_quad_y")
def _(a, o, op):
    p = a.jac()
    same(o.int(), int(p is not None and ref.is_square(p[1])), "y is a square")


@on("j_clear", "a_clear")
def _(a, o, op):
    n = 3 if op == "j_clear" else 2
    for _ in range(n):
        need(all(x == 0 for x in o.ofe().limbs), "limbs are not all zero after clear")


@on("a_neg")
def _(a, o, op):
    same(o.oaff(), ref.neg(a.aff()), "opposite point")


@on("a_valid")
def _(a, o, op):
    x, y, i = a.fe(), a.fe(), a.int()
    same(o.int(), int(not i and ref.on_curve(x.m, y.m)), "on the curve")


@on("a_set_xquad")
def _(a, o, op):
    x = a.fe().m
    w = ref.sqrt((x**3 + 7) % P)
    ok, g = o.int(), o.oaff()
    same(ok, int(w is not None), "liftable")
    if ok:
        same(g[0], x, "x")
        need(ref.on_curve(*g) and ref.is_square(g[1]), "lifted point has the square y")


@on("a_set_xo")
def _(a, o, op):
    odd, x = a.int(), a.fe().m
    w = ref.lift(x, odd)
    ok, g = o.int(), o.oaff()
    same(ok, int(w is not None), "liftable")
    if ok:
        same(g, w, "lifted point")


@on("a_set_gej", "a_from_gej", "a_set_gej_var")
def _(a, o, op):
    same(o.oaff(), a.jac(), "point")


@on("a_set_gej_zinv")
def _(a, o, op):
    x, y, z, i = a.fe(), a.fe(), a.fe(), a.int()
    zi = a.fe().m
    same(o.oaff(), None if i else (x.m * zi * zi % P, y.m * zi**3 % P), "point")


@on("a_store")
def _(a, o, op):
    p = a.aff()
    if p is not None:
        same((o.sc(), o.sc()), p, "stored point")


@on("a_load")
def _(a, o, op):
    p = a.sc(), a.sc()
    same(o.oaff(), p, "loaded point")


@on("as_cmov")
def _(a, o, op):
    f, x, y = a.int(), (a.sc(), a.sc()), (a.sc(), a.sc())
    same((o.sc(), o.sc()), y if f else x, "conditional move")


@on("a_eq")
def _(a, o, op):
    x, y = a.aff(), a.aff()
    same(o.int(), int(x == y), "equality of points")


@on("odd_table")
def _(a, o, op):
    n, p = a.int(), a.jac()
    d = ref.add(p, p)
    w = p
    for i in range(n):
        same(o.ojac(), w, "table entry %d" % i)
        o.tok()
        w = ref.add(w, d)


@on("set_table", "globalz_table")
def _(a, o, op):
    n, p = a.int(), a.jac()
    gz = o.ofe().m
    if op == "set_table":
        zi = 1
    else:
        zi = pow(gz, -1, P)
    d = ref.add(p, p)
    w = p
    for i in range(n):
        g = o.oaff()
        if g is not None:
            g = (g[0] * zi * zi % P, g[1] * zi**3 % P)
        same(g, w, "table entry %d" % i)
        w = ref.add(w, d)


# ------------------------------------------------------------------ multiplication
@on("ecmult")
def _(a, o, op):
    p, na, ng = a.jac(), a.sc(), a.sc()
    same(o.ojac(), ref.add(ref.mul(na, p), ref.mul(ng, ref.G)), "a*P + b*G")


@on("ecmult_const")
def _(a, o, op):
    p, s = a.aff(), a.sc()
    same(o.ojac(), ref.mul(s, p), "a*P")


@on("ecmult_gen")
def _(a, o, op):
    same(o.ojac(), ref.mul(a.sc(), ref.G), "a*G")


def _nums():
    x = int.from_bytes(b"The scalar for this x is unknown", "big")
    y = ref.sqrt((x**3 + 7) % P)
    return (x, P - y if y & 1 else y)


@on("table_g")
def _(a, o, op):
    i = a.int()
    same((o.sc(), o.sc()), ref.mul(2 * i + 1, ref.G), "table entry")


@on("table_gen")
def _(a, o, op):
    j, i = a.int(), a.int()
    u = ref.add(_nums(), ref.G)
    w = ref.add(ref.mul((i << (4 * j)) % N, ref.G), ref.mul((1 << j if j < 63 else 1 - (1 << 63)) % N, u))
    same((o.sc(), o.sc()), w, "table entry")


@on("boxed_g", "boxed_gen")
def _(a, o, op):
    same(o.int(), -1, "first differing entry")


# ------------------------------------------------------------------ ecdsa
@on("verify_raw")
def _(a, o, op):
    r, s, p, m = a.sc(), a.sc(), a.aff(), a.sc()
    same(o.int(), int(ref.verify(r, s, p, m)), "verdict")


@on("verify")
def _(a, o, op):
    m, r, s, p = a.sc(), a.sc(), a.sc(), a.aff()
    w = int(ref.verify(r, s, p, m))
    same((o.int(), o.int()), (w, w), "verdict")


def res(o, rd):
    return ("Err", None) if o.tok() == "Err" else ("Ok", rd())


@on("recover_raw")
def _(a, o, op):
    r, s, i, m = a.sc(), a.sc(), a.int(), a.sc()
    w = ref.recover(r, s, i, m)
    same(res(o, o.oaff), ("Ok", w) if w else ("Err", None), "recovered key")


@on("recover")
def _(a, o, op):
    m, r, s, i = a.sc(), a.sc(), a.sc(), a.int()
    w = ref.recover(r, s, i, m)
    same(res(o, o.oaff), ("Ok", w) if w else ("Err", None), "recovered key")


@on("sign_raw")
def _(a, o, op):
    d, m, k = a.sc(), a.sc(), a.sc()
    w = ref.sign_raw(d, m, k)
    same(res(o, lambda: (o.sc(), o.sc(), o.int())), ("Ok", w) if w else ("Err", None), "(r, s, recid)")


@on("sign")
def _(a, o, op):
    m, d = a.sc(), a.sc()
    same((o.sc(), o.sc(), o.int()), ref.sign(d, m), "(r, s, recid)")


def ecdh(p, s):
    if s == 0:
        return None
    q = ref.mul(s, p)
    return hashlib.sha256(bytes([2 + (q[1] & 1)]) + q[0].to_bytes(32, "big")).digest()


@on("ecdh")
def _(a, o, op):
    p, s = a.aff(), a.sc()
    w = ecdh(p, s)
    g = o.tok()
    same(None if g == "none" else bytes.fromhex(g), w, "shared secret")


@on("shared")
def _(a, o, op):
    p, s = a.aff(), a.sc()
    w = ecdh(p, s)
    same(res(o, o.bytes), ("Ok", w) if w else ("Err", None), "shared secret")


# ------------------------------------------------------------------ keys
@on("pk_from_sk")
def _(a, o, op):
    same(o.oaff(), ref.mul(a.sc(), ref.G), "public key")


def pres(o, w, what):
    g = res(o, o.oaff)
    if g[0] == "Err":
        g = ("Err", o.tok())
    same(g, ("Err", w) if isinstance(w, str) else ("Ok", w), what)


@on("pk_parse", "pk_parse_c")
def _(a, o, op):
    pres(o, ref.parse_pk(a.bytes()), "parsed key")


@on("pk_parse_slice")
def _(a, o, op):
    f = a.tok()
    pres(o, ref.parse_pk(a.bytes(), None if f == "N" else f), "parsed key")


@on("pk_try_from")
def _(a, o, op):
    x, y, i = a.fe(), a.fe(), a.int()
    w = "InvalidAffine" if i or not ref.on_curve(x.m, y.m) else (x.m, y.m)
    pres(o, w, "converted key")


def pkser(p):
    x, y = p[0].to_bytes(32, "big"), p[1].to_bytes(32, "big")
    return b"\4" + x + y, bytes([2 + (p[1] & 1)]) + x


@on("pk_ser")
def _(a, o, op):
    p = a.aff()
    same((o.bytes(), o.bytes()), pkser(p), "encodings")


@on("pk_tweak_add", "pk_tweak_mul", "pk_combine")
def _(a, o, op):
    if op == "pk_combine":
        w = None
        for _ in range(a.int()):
            w = ref.add(w, a.aff())
        err = "InvalidPublicKey"
    else:
        p, t = a.aff(), a.sc()
        w = ref.add(p, ref.mul(t, ref.G)) if op == "pk_tweak_add" else ref.mul(t, p)
        err = "TweakOutOfRange"
    pres(o, err if w is None else w, "resulting key")


@on("sk_parse", "sk_parse_slice")
def _(a, o, op):
    b = a.bytes()
    v = int.from_bytes(b, "big")
    if len(b) != 32:
        w = ("Err", "InvalidInputLength")
    elif 0 < v < N:
        w = ("Ok", v)
    else:
        w = ("Err", "InvalidSecretKey")
    k = o.tok()
    same((k, o.sc() if k == "Ok" else o.tok()), w, "parsed key")


@on("sk_try_from")
def _(a, o, op):
    v = a.sc()
    k = o.tok()
    same((k, o.sc() if k == "Ok" else o.tok()), ("Ok", v) if v else ("Err", "InvalidSecretKey"), "converted key")


@on("sk_ser", "msg_ser")
def _(a, o, op):
    same(o.bytes(), a.sc().to_bytes(32, "big"), "bytes")


@on("sk_default")
def _(a, o, op):
    same(o.sc(), 1)


@on("sk_tweak_add", "sk_tweak_mul")
def _(a, o, op):
    k, t = a.sc(), a.sc()
    v = (k + t) % N if op == "sk_tweak_add" else k * t % N
    r = o.tok()
    if r == "Err":
        r = "Err " + o.tok()
    same((r, o.sc()), ("Ok", v) if v else ("Err TweakOutOfRange", k), "tweaked key")


@on("sk_inv")
def _(a, o, op):
    same(o.sc(), pow(a.sc(), -1, N), "inverse key")


@on("sk_clear")
def _(a, o, op):
    same((o.sc(), o.int()), (0, 1), "cleared key")


@on("sk_random")
def _(a, o, op):
    b = a.bytes()
    i = 0
    while True:
        v = int.from_bytes(bytes(b[(i + j) % len(b)] for j in range(32)), "big")
        i += 32
        if 0 < v < N:
            break
    same((o.sc(), o.int()), (v, i), "random key and bytes drawn")


# ------------------------------------------------------------------ signatures
def sres(o, w, what):
    k = o.tok()
    g = (k, (o.sc(), o.sc()) if k == "Ok" else o.tok())
    same(g, w, what)


@on("sig_std", "sig_std_slice", "sig_ovf_slice")
def _(a, o, op):
    b = a.bytes()
    r, s = int.from_bytes(b[:32], "big"), int.from_bytes(b[32:], "big")
    if len(b) != 64:
        w = ("Err", "InvalidInputLength")
    elif op == "sig_ovf_slice":
        w = ("Ok", (r % N, s % N))
    elif r >= N or s >= N:
        w = ("Err", "InvalidSignature")
    else:
        w = ("Ok", (r, s))
    sres(o, w, "parsed signature")


@on("sig_ovf")
def _(a, o, op):
    b = a.bytes()
    r, s = int.from_bytes(b[:32], "big"), int.from_bytes(b[32:], "big")
    same((o.sc(), o.sc()), (r % N, s % N), "parsed signature")


@on("sig_der")
def _(a, o, op):
    w = ref.parse_der(a.bytes())
    sres(o, ("Ok", w) if w else ("Err", "InvalidSignature"), "parsed signature")


@on("sig_der_lax")
def _(a, o, op):
    w = ref.parse_der_lax_sep(a.bytes())
    sres(o, ("Ok", w) if w else ("Err", "InvalidSignature"), "parsed signature")


@on("sig_ser")
def _(a, o, op):
    r, s = a.sc(), a.sc()
    same(o.bytes(), r.to_bytes(32, "big") + s.to_bytes(32, "big"), "bytes")


@on("sig_ser_der")
def _(a, o, op):
    w = ref.der(a.sc(), a.sc())
    same((o.bytes(), o.int()), (w, len(w)), "DER bytes")


@on("sig_norm")
def _(a, o, op):
    r, s = a.sc(), a.sc()
    same((o.sc(), o.sc()), (r, N - s if s > ref.HALF else s), "normalised signature")


@on("msg_parse")
def _(a, o, op):
    same(o.sc(), int.from_bytes(a.bytes(), "big") % N, "message")


@on("msg_parse_slice")
def _(a, o, op):
    b = a.bytes()
    k = o.tok()
    same((k, o.sc() if k == "Ok" else o.tok()),
         ("Ok", int.from_bytes(b, "big") % N) if len(b) == 32 else ("Err", "InvalidInputLength"), "message")


@on("rid_parse", "rid_parse_rpc")
def _(a, o, op):
    b = a.int()
    v = b if op == "rid_parse" else b - 27
    k = o.tok()
    same((k,) + ((o.int(), o.int(), o.int()) if k == "Ok" else (o.tok(),)),
         ("Ok", v, v, v) if 0 <= v < 4 else ("Err", "InvalidRecoveryId"), "recovery id")


@on("serde_pk")
def _(a, o, op):
    p = a.aff()
    full = pkser(p)[0]
    same((o.tok(), o.tok(), o.tok(), o.bytes()), ("str", base64.b64encode(full).decode(), "bytes", full), "serde forms")


@on("serde_de_str", "serde_de_bytes")
def _(a, o, op):
    b = a.bytes()
    if op == "serde_de_str":
        try:
            d = base64.b64decode(b, validate=True)
            b = d if base64.b64encode(d) == b else b""[:0]
        except Exception:
            b = b""
    w = ref.parse_pk(b)
    k = o.tok()
    same((k, o.oaff() if k == "Ok" else None), ("Err", None) if isinstance(w, str) else ("Ok", w), "deserialised key")


@on("dec", "cleared")
def _(a, o, op):
    pass            # judged by whether they panic
