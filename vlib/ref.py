"""Reference arithmetic of secp256k1 on Python integers (the oracle)."""
import hashlib
import hmac

P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8
G = (GX, GY)
HALF = (N - 1) // 2


def add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (l * l - a[0] - b[0]) % P
    return x, (l * (a[0] - x) - a[1]) % P


def neg(a):
    return None if a is None else (a[0], -a[1] % P)


def _jdbl(p):
    x, y, z = p
    if not z:
        return p
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x3 = (m * m - 2 * s) % P
    return x3, (m * (s - x3) - 8 * pow(y, 4, P)) % P, 2 * y * z % P


def _jadd(p, q):
    if not p[2]:
        return q
    if not q[2]:
        return p
    z1, z2 = p[2] * p[2] % P, q[2] * q[2] % P
    u1, u2 = p[0] * z2 % P, q[0] * z1 % P
    s1, s2 = p[1] * z2 * q[2] % P, q[1] * z1 * p[2] % P
    if u1 == u2:
        if s1 != s2:
            return 0, 1, 0
        return _jdbl(p)
    h, r = u2 - u1, s2 - s1
    x = (r * r - h**3 - 2 * u1 * h * h) % P
    return x, (r * (u1 * h * h - x) - s1 * h**3) % P, h * p[2] * q[2] % P


def mul(k, a):
    k %= N
    if a is None or k == 0:
        return None
    r, q = (0, 1, 0), (a[0], a[1], 1)
    while k:
        if k & 1:
            r = _jadd(r, q)
        q = _jdbl(q)
        k >>= 1
    if not r[2]:
        return None
    zi = pow(r[2], -1, P)
    return r[0] * zi * zi % P, r[1] * zi**3 % P


def is_square(a):
    a %= P
    return a == 0 or pow(a, (P - 1) // 2, P) == 1


def sqrt(a):
    r = pow(a, (P + 1) // 4, P)
    return r if r * r % P == a % P else None


def on_curve(x, y):
    return (y * y - x * x * x - 7) % P == 0


def lift(x, odd):
    y = sqrt((x**3 + 7) % P)
    if y is None:
        return None
    return (x, y if y & 1 == odd else P - y)


def verify(r, s, q, m):
    if r % N == 0 or s % N == 0:
        return False
    si = pow(s, -1, N)
    t = add(mul(m * si % N, G), mul(r * si % N, q))
    return t is not None and t[0] % N == r


def recover(r, s, rid, m):
    if r == 0 or s == 0:
        return None
    x = r
    if rid & 2:
        x = r + N
        if x >= P:
            return None
    R = lift(x, rid & 1)
    if R is None:
        return None
    ri = pow(r, -1, N)
    return add(mul(s * ri % N, R), neg(mul(m * ri % N, G)))


def sign_raw(d, m, k):
    R = mul(k, G)
    r = R[0] % N
    s = pow(k, -1, N) * (m + r * d) % N
    if s == 0:
        return None
    rid = (2 if R[0] >= N else 0) | (R[1] & 1)
    if s > HALF:
        s = N - s
        rid ^= 1
    return r, s, rid


class Drbg:
    def __init__(self, ent, nonce):
        self.k, self.v = b"\0" * 32, b"\1" * 32
        self.upd(ent + nonce)

    def h(self, *p):
        return hmac.new(self.k, b"".join(p), hashlib.sha256).digest()

    def upd(self, d):
        self.k = self.h(self.v, b"\0", d)
        self.v = self.h(self.v)
        if d:
            self.k = self.h(self.v, b"\1", d)
            self.v = self.h(self.v)

    def gen(self):
        self.v = self.h(self.v)
        r = self.v
        self.upd(b"")
        return r


def sign(d, m):
    g = Drbg(d.to_bytes(32, "big"), m.to_bytes(32, "big"))
    while True:
        k = int.from_bytes(g.gen(), "big")
        if 0 < k < N:
            r = sign_raw(d, m, k)
            if r:
                return r


# ------------------------------------------------------------------ encodings
def der_int(v):
    b = v.to_bytes(max(1, (v.bit_length() + 8) // 8), "big")
    return b"\x02" + bytes([len(b)]) + b


def der(r, s):
    c = der_int(r) + der_int(s)
    return b"\x30" + bytes([len(c)]) + c


def parse_pk(b, fmt=None):
    """point or error name"""
    n = len(b)
    kind = {65: "F", 33: "C", 64: "R"}.get(n)
    if kind is None or (fmt and fmt != kind):
        return "InvalidInputLength"
    if kind == "R":
        b = b"\x04" + b
        kind = "F"
    bad = "InvalidPublicKey"
    x = int.from_bytes(b[1:33], "big")
    if x >= P:
        return bad
    if kind == "C":
        if b[0] not in (2, 3):
            return bad
        return lift(x, b[0] & 1) or bad
    y = int.from_bytes(b[33:], "big")
    if b[0] not in (4, 6, 7) or y >= P or not on_curve(x, y):
        return bad
    if b[0] in (6, 7) and (y & 1) != (b[0] & 1):
        return bad
    return x, y


def rd_len(b, i):
    """minimal definite DER length: (len, next) or None"""
    if i >= len(b):
        return None
    b1 = b[i]
    i += 1
    if b1 == 0xff:
        return None
    if not b1 & 0x80:
        return b1, i
    if b1 == 0x80:
        return None
    ll = b1 & 0x7f
    if ll > len(b) - i:
        return None
    if b[i] == 0:
        return None
    if ll > 8:
        return None
    r = int.from_bytes(b[i:i + ll], "big")
    i += ll
    if r > len(b) - i:
        return None
    if r < 128:
        return None
    return r, i


def rd_int(b, i):
    if i >= len(b) or b[i] != 2:
        return None
    x = rd_len(b, i + 1)
    if x is None:
        return None
    n, i = x
    if n == 0 or n > len(b) - i:
        return None
    c = b[i:i + n]
    if n > 1 and c[0] == 0 and not c[1] & 0x80:
        return None
    if n > 1 and c[0] == 0xff and c[1] & 0x80:
        return None
    v = int.from_bytes(c, "big")
    if c[0] & 0x80 or v >= 2**256:
        return None
    return (v if v < N else 0), i + n


def parse_der(b):
    if not b or b[0] != 0x30:
        return None
    x = rd_len(b, 1)
    if x is None:
        return None
    n, i = x
    if n != len(b) - i:
        return None
    x = rd_int(b, i)
    if x is None:
        return None
    r, i = x
    x = rd_int(b, i)
    if x is None:
        return None
    s, i = x
    if i != len(b):
        return None
    return r, s


def parse_der_lax(b):
    """ecdsa_signature_parse_der_lax of Bitcoin Core / libsecp256k1 contrib"""
    n = len(b)
    i = 0
    if i == n or b[i] != 0x30:
        return None
    i += 1
    if i == n:
        return None
    lb = b[i]
    i += 1
    if lb & 0x80:
        lb -= 0x80
        if lb > n - i:
            return None
        i += lb
    out = []
    for _ in range(2):
        if i == n or b[i] != 2:
            return None
        i += 1
        if i == n:
            return None
        lb = b[i]
        i += 1
        if lb & 0x80:
            lb -= 0x80
            if lb > n - i:
                return None
            while lb > 0 and b[i] == 0:
                i += 1
                lb -= 1
            if lb >= 8:
                return None
            ln = 0
            while lb > 0:
                ln = (ln << 8) + b[i]
                i += 1
                lb -= 1
        else:
            ln = lb
        if ln > n - i:
            return None
        out.append(int.from_bytes(b[i:i + ln], "big"))
        i += ln
    return out[0], out[1]


def parse_der_lax_sep(b):
    """the same, with an integer that does not fit replaced by zero"""
    r = parse_der_lax(b)
    return r and tuple(0 if v >= N else v for v in r)
