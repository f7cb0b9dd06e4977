"""Structured inputs for native replay (candidates when a proof fails)."""
import random
from . import ref
from .ref import P, N

FE_EDGE = [0, 1, 2, 3, 7, P - 1, P - 2, (P - 1) // 2, (P + 1) // 2, 2**255, 2**256 - 2**32, 2**128, 2**26 - 1, 2**26, N, N - 1, P - N,
           2**255 - 1, 0xffffffff, (1 << 234) - 1, P >> 1 << 1 & ((1 << 250) - 1)]
SC_EDGE = [0, 1, 2, 3, N - 1, N - 2, ref.HALF, ref.HALF + 1, ref.HALF - 1, 2**128, 2**128 - 1, 2**255, 2**255 - 1, 2**32, 2**32 - 1,
           2**64 - 1, 2**192, 2**224 - 1, N >> 1 << 1 & (2**255 - 1), 2**256 - N, 2**256 - N - 1, (1 << 252) - 1, int("a5" * 32, 16) % N]


def fe_tok(limbs, m):
    return "%d:%s" % (m, ",".join(str(x) for x in limbs))


def n_tok(v):
    return "n:%064x" % (v % P)


def limb_max(i, m):
    return (0x3ffffff if i < 9 else 0x3fffff) * 2 * m


def as_limbs(v, m):
    """some unreduced limb form of the integer v within magnitude m, or None"""
    out = []
    for i in range(10):
        out.append(v & 0x3ffffff if i < 9 else v)
        v >>= 26
    if out[9] > limb_max(9, m):
        return None
    return out


def fe_raw(rng, m, k):
    """k structured raw elements of magnitude m"""
    out = [[limb_max(i, m) for i in range(10)], [0] * 10]
    for j in range(10):
        out.append([limb_max(i, m) if i == j else 0 for i in range(10)])
        out.append([limb_max(i, m) if i != j else 0 for i in range(10)])
    kp = []
    for q in range(0, 2 * m + 1):
        for d in (0, 1, -1, 977, -977, 2**32, 2**26):
            l = as_limbs(q * P + d, m) if q * P + d >= 0 else None
            if l:
                kp.append(l)
    # the same multiples of p with limbs borrowed upwards
    for l in list(kp):
        l2 = list(l)
        for i in range(9):
            if l2[i + 1] > 0 and l2[i] + 0x4000000 <= limb_max(i, m):
                l2[i + 1] -= 1
                l2[i] += 0x4000000
        kp.append(l2)
    rng.shuffle(kp)
    out += kp[:k]
    # sparse patterns of unreduced limbs
    for j in range(10):
        for c in (0x4000000, 0x4000001, 0x3ffffff, 1, 0x8000000 - 2, 0x400000, 0x3fffff):
            if c <= limb_max(j, m):
                out.append([c if i == j else 0 for i in range(10)])
    for c in (0x3ffffff, 0x4000000):
        if m > 1 or c < limb_max(0, m):
            out.append([min(c, limb_max(i, m)) for i in range(10)])
    n0 = len(out)
    k = n0 - 12 + max(k - len(kp), k // 2)
    while len(out) < k + 12:
        t = rng.random()
        if t < 0.3:
            out.append([rng.choice([0, 1, limb_max(i, m), limb_max(i, m) - 1, 0x3ffffff, 0x4000000 if m > 1 else 1]) if True else 0 for i in range(10)])
        elif t < 0.5:
            out.append([limb_max(i, m) - rng.randrange(4) for i in range(10)])
        else:
            out.append([rng.randrange(limb_max(i, m) + 1) for i in range(10)])
    out = [[min(x, limb_max(i, m)) for i, x in enumerate(l)] for l in out]
    return [fe_tok(l, m) for l in out]


def fe_norm(rng, k):
    out = [v % P for v in FE_EDGE]
    out += [P - 1 - i for i in range(3, 8)]
    for i in range(10):
        out.append((1 << (26 * i)) % P)
        out.append((P - (1 << (26 * i))) % P)
        out.append(((1 << (26 * i)) - 1) % P)
    while len(out) < k:
        out.append(rng.randrange(P))
    return out


def scalars(rng, k):
    out = list(SC_EDGE)
    for i in range(8):
        out += [(0xffffffff << (32 * i)) % N, (1 << (32 * i)), N - (1 << (32 * i)) if i else N - 1, (0x80000000 << 32 * i) % N]
    for sh in (1, 2, 3, 4, 8, 64, 129):
        out.append((ref.HALF >> sh))
        out.append(N - (N >> sh))
    while len(out) < k:
        t = rng.random()
        if t < 0.3:
            out.append(int("".join(rng.choice(["00000000", "ffffffff", "80000000", "7fffffff", "%08x" % rng.randrange(2**32)]) for _ in range(8)), 16) % N)
        elif t < 0.5:
            out.append((N - 1 - rng.randrange(2**rng.randrange(1, 200))) % N)
        else:
            out.append(rng.randrange(N))
    return out


def sc(v):
    return "%064x" % v


_pts = {}


def point(k):
    if k not in _pts:
        _pts[k] = ref.mul(k, ref.G)
    return _pts[k]


def aff_tok(p, rng=None, raw=0):
    if p is None:
        if rng and rng.random() < 0.7:
            v = point(5) if rng.random() < 0.4 else (rng.randrange(P), rng.randrange(P))
            return "n:%064x n:%064x 1" % v
        return "n:%064x n:%064x 1" % (0, 0)
    if raw and rng:
        return "%s %s 0" % (fe_any(rng, p[0]), fe_any(rng, p[1]))
    return "%s %s 0" % (n_tok(p[0]), n_tok(p[1]))


def fe_any(rng, v):
    """a magnitude-1 token for the value v, possibly unreduced"""
    v %= P
    if rng.random() < 0.5:
        return n_tok(v)
    l = as_limbs(v + P, 1)
    if l is None or rng.random() < 0.3:
        l = as_limbs(v, 1)
    for i in range(9):
        if l[i + 1] > 0 and l[i] + 0x4000000 <= limb_max(i, 1) and rng.random() < 0.5:
            l[i + 1] -= 1
            l[i] += 0x4000000
    return fe_tok(l, 1)


def jac_tok(p, z, rng=None):
    if p is None:
        if rng and rng.random() < 0.7:
            # a point at infinity may carry any coordinates
            v = [0 if rng.random() < 0.3 else rng.randrange(P) for _ in range(3)]
            if rng.random() < 0.4:
                v[0], v[1] = point(5)[0] * v[2]**2 % P, point(5)[1] * v[2]**3 % P
            return "n:%064x n:%064x n:%064x 1" % tuple(v)
        return "n:%064x n:%064x n:%064x 1" % (0, 0, 0)
    x, y = p[0] * z * z % P, p[1] * z**3 % P
    if rng:
        return "%s %s %s 0" % (fe_any(rng, x), fe_any(rng, y), fe_any(rng, z))
    return "%s %s %s 0" % (n_tok(x), n_tok(y), n_tok(z))


BETA = pow(2, (P - 1) // 3, P)
if BETA == 1:
    BETA = pow(3, (P - 1) // 3, P)


def pairs(rng, k):
    """pairs of points including the exceptional ones"""
    g = [point(i) for i in (1, 2, 3, 7, N - 1, N - 2)] + [point(rng.randrange(1, N)) for _ in range(3)]
    out = []
    for p in g:
        b = (p[0] * BETA % P, p[1])
        out += [(p, p), (p, ref.neg(p)), (None, p), (p, None), (p, ref.neg(b)), (p, b), (ref.neg(b), p), (ref.neg(p), p), (p, ref.add(p, p)),
                (p, ref.neg((b[0] * BETA % P, b[1])))]
    out.append((None, None))
    while len(out) < k:
        out.append((point(rng.randrange(1, N)), point(rng.randrange(1, N))))
    return out
