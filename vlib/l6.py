"""DER encodings of signatures: the real decoder and encoder on symbolic bytes."""
import z3
from . import terms as tm, mir, execu, gen, ref
from .terms import T
from .framework import lemma
from .mir import Ptr, E, UNDEF, Unsupported
from .ref import P, N
from .execu import Outcomes, Table
from .l4 import L, res_kind, hx
from .l5 import SG, byte, hb

DEC = "libsecp256k1::util::Decoder::<'_>::"
SN = "libsecp256k1::curve::Scalar::"


def limbs_of(v):
    return (tuple(tm.trunc(32, tm.lshr(256, v, 32 * i), 256) for i in range(8)),)


def value_of(s):
    v = 0
    for i, x in enumerate(s[0]):
        v = tm.or_(256, v, tm.shl(256, tm.zext(256, x, 32), 32 * i))
    return v


def join(b):
    v = 0
    for x in b:
        v = tm.or_(256, tm.shl(256, v, 8), tm.zext(256, x, 8))
    return v


def subst_state(s, t, v):
    """replace the term t by its value v everywhere in the state"""
    m = {t.id: v}
    x = t
    while x.op == "zext":
        x = x.a[0]
        if isinstance(x, T):
            m[x.id] = v
        else:
            break

    def go(y):
        if isinstance(y, T):
            return tm.subst(y, m)
        if isinstance(y, tuple):
            z = tuple(go(e) for e in y)
            return y if all(p is q for p, q in zip(y, z)) else z
        if isinstance(y, E):
            return E(go(y.d), {k: go(f) for k, f in y.f.items()})
        if isinstance(y, Ptr):
            if isinstance(y.off, T) or isinstance(y.meta, T):
                return Ptr(y.a, y.p, y.mode, go(y.off), go(y.meta), y.view)
        return y
    for k, y in list(s.mem.items()):
        z = go(y)
        if z is not y:
            s.mem[k] = z
    return go


def split(eng, st, t, top=None):
    """case split on the value of t: one state per feasible value (up to `top`; larger values stay
    together), with the value substituted"""
    if not isinstance(t, T):
        return [(st, t, lambda y: y)]
    out = []
    if top is not None and t.hi > top:
        c = tm.ult(t.w, t, top + 1)
        s = st.fork()
        s.assume(tm.not_b(c))
        if eng.feas(s.pc) != "unsat":
            s.aux["split"] = s.aux.get("split", ()) + ("more",)
            out.append((s, t, lambda y: y))
        st = st.fork()
        st.assume(c)
        if eng.feas(st.pc) == "unsat":
            return out
    for v in range(t.lo, min(t.hi, t.hi if top is None else top) + 1):
        c = tm.eq(t.w, t, v)
        if isinstance(c, int) and not c:
            continue
        s = st.fork()
        s.assume(c)
        if eng.feas(s.pc) == "unsat":
            continue
        s.aux["split"] = s.aux.get("split", ()) + (v,)
        out.append((s, v, subst_state(s, t, v)))
        if len(out) > 400:
            raise Unsupported("too many values")
    return out


def der_tab(B):
    t = Table()

    @t.on(SN + "set_b32")
    def setb32(eng, st, a, cal):
        b = eng.load(st, a[1])
        v = join(b)
        o = tm.not_b(tm.ult(256, v, N))
        eng.store(st, a[0], limbs_of(tm.ite(256, o, tm.sub(256, v, N), v)))
        return (tm.zext(8, o, 1) if isinstance(o, T) else o,)

    @t.on(DEC + "read_len", DEC + "read_len_lax", DEC + "read_seq_len_lax")
    def rl(eng, st, a, cal):
        # the real body, then a case split on the position it stops at and on the length it returns
        out = Outcomes()
        for s, v in eng.run_fn(st, eng.prog.fn(cal["sym"]), a):
            if not isinstance(v, E):
                return NotImplemented
            for s1, d, g in split(eng, s, v.d):
                if d != 0:
                    out.append((s1, E(d, {d: v.f.get(d, ())})))
                    continue
                dec = eng.load(s1, a[0])
                n = dec[0].meta
                for s2, y, g2 in split(eng, s1, dec[1]):
                    x = g2(g(v.f[0][0]))
                    for s3, z, g3 in split(eng, s2, x, max(n - y, 0)) if "seq" not in cal["name"] else [(s2, x, None)]:
                        out.append((s3, E(0, {0: (z,)})))
        return out
    return t


class Ask:
    """explores every way the reference can go under a path condition"""

    def __init__(self, B, pc):
        self.B, self.pc0 = B, list(pc)

    def runs(self, f):
        """yields (extra path condition, result of f(self))"""
        todo = [()]
        while todo:
            self.script = list(todo.pop())
            self.pc = list(self.pc0)
            self.taken = []
            self.todo = []
            r = f(self)
            todo += self.todo
            yield self.pc, r

    def cond(self, c):
        if isinstance(c, int):
            return bool(c)
        i = len(self.taken)
        if i < len(self.script):
            v = self.script[i]
        else:
            yes = self.B.feas(tuple(self.pc + [c])) != "unsat"
            no = self.B.feas(tuple(self.pc + [tm.not_b(c)])) != "unsat"
            if yes and no:
                self.todo.append(tuple(self.taken) + (False,))
            v = yes
            if not yes and not no:
                raise Unsupported("contradictory path")
        self.taken.append(v)
        self.pc.append(c if v else tm.not_b(c))
        return v

    def pick(self, t, lo, hi):
        """the value of t if within lo..hi, else None"""
        if isinstance(t, int):
            return t if lo <= t <= hi else None
        w = t.w
        if not self.cond(tm.ult(w, t, hi + 1)):
            return None
        if lo and self.cond(tm.ult(w, t, lo)):
            return None
        while lo < hi:
            m = (lo + hi) // 2
            if self.cond(tm.ult(w, t, m + 1)):
                hi = m
            else:
                lo = m + 1
        return lo


def ref_len(q, b, i):
    """minimal definite length at i: (length, next) or None"""
    n = len(b)
    if i >= n:
        return None
    if q.cond(tm.ult(8, b[i], 128)):
        v = q.pick(b[i], 0, n - i - 1)
        return None if v is None else (v, i + 1)
    i += 1
    k = q.pick(tm.sub(8, b[i - 1], 128), 1, 8)
    if k is None or k > n - i:
        return None
    if q.cond(tm.eq(8, b[i], 0)):
        return None
    t = 0
    for x in b[i:i + k]:
        t = tm.or_(64, tm.shl(64, t, 8), tm.zext(64, x, 8))
    v = q.pick(t, 128, n)
    return None if v is None or v > n - i - k else (v, i + k)


def ref_int(q, b, i):
    """minimally encoded nonnegative integer below 2^256 at i: (value term, next); values from n read as zero"""
    n = len(b)
    if i >= n or not q.cond(tm.eq(8, b[i], 2)):
        return None
    x = ref_len(q, b, i + 1)
    if x is None:
        return None
    ln, i = x
    if ln == 0 or ln > n - i:
        return None
    c = b[i:i + ln]
    if q.cond(tm.not_b(tm.ult(8, c[0], 0x80))):
        return None                       # negative
    if ln > 1 and q.cond(tm.eq(8, c[0], 0)) and q.cond(tm.ult(8, c[1], 0x80)):
        return None                       # not minimal
    if ln > 33 or ln == 33 and not q.cond(tm.eq(8, c[0], 0)):
        return None                       # 2^256 or more
    v = join(c[-32:])
    return tm.ite(256, tm.ult(256, v, N), v, 0), i + ln


def ref_strict(q, b):
    if not b or not q.cond(tm.eq(8, b[0], 0x30)):
        return None
    x = ref_len(q, b, 1)
    if x is None:
        return None
    ln, i = x
    if ln != len(b) - i:
        return None
    x = ref_int(q, b, i)
    if x is None:
        return None
    r, i = x
    x = ref_int(q, b, i)
    if x is None or x[1] != len(b):
        return None
    return r, x[0]


def ref_lax(q, b):
    """the grammar of ecdsa_signature_parse_der_lax"""
    n = len(b)
    if not b or not q.cond(tm.eq(8, b[0], 0x30)) or n < 2:
        return None
    i = 2
    if not q.cond(tm.ult(8, b[1], 128)):
        k = q.pick(tm.sub(8, b[1], 128), 0, n - 2)
        if k is None:
            return None
        i += k
    out = []
    for _ in range(2):
        if i + 1 >= n or not q.cond(tm.eq(8, b[i], 2)):
            return None
        i += 2
        if q.cond(tm.ult(8, b[i - 1], 128)):
            ln = q.pick(b[i - 1], 0, n - i)
        else:
            k = q.pick(tm.sub(8, b[i - 1], 128), 0, n - i)
            if k is None:
                return None
            # a big-endian number with leading zeros; more than 7 significant bytes never fit
            hd, lo = b[i:i + max(k - 7, 0)], b[i + max(k - 7, 0):i + k]
            big = 0
            for x in hd:
                big = tm.or_(1, big, tm.not_b(tm.eq(8, x, 0)))
            if q.cond(big):
                return None
            t = 0
            for x in lo:
                t = tm.or_(64, tm.shl(64, t, 8), tm.zext(64, x, 8))
            i += k
            ln = q.pick(t, 0, n - i)
        if ln is None or ln > n - i:
            return None
        c = b[i:i + ln]
        big = 0
        for x in c[:-32]:
            big = tm.or_(1, big, tm.not_b(tm.eq(8, x, 0)))
        v = join(c[-32:]) if c else 0
        ok = tm.and_(1, tm.not_b(big), tm.ult(256, v, N))
        out.append(tm.ite(256, ok, v, 0))
        i += ln
    return tuple(out)


def check_parse(cx, fn, spec, op, b, pre, t, stats=None):
    """the parser on the bytes b (terms or integers), under the assumptions `pre`"""
    B = cx.bv()
    eng = cx.engine(der_tab(B), feas=B.feas)
    eng.ovcache = {}
    st = execu.State()
    for c in pre:
        st.assume(c)
    pc0 = st.pc
    k = eng.new_heap(st, tuple(b))

    def mk(env):
        w = bytes(x if isinstance(x, int) else env.get(x.a[0], 0) for x in b)
        return ["%s %s" % (op, w.hex() or "-")]
    res = eng.run_fn(st, cx.fn(SG + fn), [Ptr(k, (), 1, 0, len(b))])
    npath = 0
    for s, v in res:
        if not isinstance(v, E):
            raise Unsupported("result %r" % (v,))
        for s1, d, g in split(eng, s, v.d):
            if B.feas(s1.pc) == "unsat":
                continue
            payload = g(v.f.get(d, ()))
            for pc, want in Ask(B, s1.pc).runs(lambda q: spec(q, tuple(b))):
                npath += 1
                if want is None:
                    if d == 0:
                        cx.valid(t + ": an invalid encoding is rejected", B, 0, pc, mk)
                elif d != 0:
                    cx.valid(t + ": a valid encoding is accepted", B, 0, pc, mk)
                else:
                    (r, s_) = payload[0]
                    c = z3.And(B.z(value_of(r), 256) == B.z(want[0], 256), B.z(value_of(s_), 256) == B.z(want[1], 256))
                    cx.valid(t + ": the two integers", B, c, pc, mk)
    cx.valid(t + ": defined for every input", B, z3.Or([z3.And([B.b(c) for c in s.pc] + [z3.BoolVal(True)]) for s, _ in res] + [z3.BoolVal(False)]), pc0, mk)
    cx.obligations(t, eng, B, pc0, mk)
    return npath


# ------------------------------------------------------------------ batteries
def der_inputs(cx):
    """encodings around every boundary of the grammar"""
    rng = cx.rng
    vals = [0, 1, 2, 127, 128, 255, 256, 0x8000, (1 << 248) - 1, 1 << 247, 1 << 248, (1 << 255) - 1, 1 << 255, N - 1, N, N + 1, (1 << 256) - 1,
            ref.HALF, ref.HALF + 1, rng.randrange(N), rng.randrange(1 << 200), rng.randrange(1 << 256)]
    out = [b"", b"\x30", b"\x30\x00", b"\x31\x06\x02\x01\x01\x02\x01\x01", b"\x30\x80", b"\x30\xff" + bytes(127), b"\x30\x81"]

    def ln(n, form=0):
        if form == 0 and n < 128:
            return bytes([n])
        if form == 0:
            form = 1
        b = n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")
        b = bytes(max(0, form - len(b))) + b
        return bytes([0x80 + len(b)]) + b

    def seq(c, form=0, delta=0, tail=b""):
        return b"\x30" + ln(max(len(c) + delta, 0), form) + c + tail

    def integer(c, form=0, delta=0):
        return b"\x02" + ln(max(len(c) + delta, 0), form) + c
    one = ref.der_int(1)
    for v in vals:
        a = ref.der_int(v)
        c = a[2:]
        out += [seq(a + one), seq(one + a), seq(a + a)]
        for d in (c[1:] if len(c) > 1 else b"", b"\x00" + c, b"\x00\x00" + c, b"\xff" + c, c + b"\x00", b"\x80" + c, bytes(40) + c, c + c, b"\x02\x01\x05", b"\x02\x21" + c + bytes(31)):
            for f in (0, 1, 2, 8, 9):
                out += [seq(integer(d, f) + one), seq(one + integer(d, f))]
        for dl in (-1, 1, 60, 300):
            out += [seq(integer(c, 0, dl) + one), seq(one + integer(c, 0, dl)), seq(a + one, 0, dl), seq(one + a, 0, dl)]
        for f in (1, 2, 3, 8, 9, 70):
            out += [seq(a + one, f), seq(integer(c, f) + integer(c, f))]
        for t in (b"\x00", b"\x02\x01\x01", bytes(130), b"\x02"):
            out += [seq(a + one, 0, 0, t), seq(a + one + t), seq(a + one, 1, 0, t)]
        for bad in (b"\x03" + a[1:], b"\x82" + a[1:], b"\x02"):
            out += [seq(bad + one), seq(one + bad), seq(bad)]
        w = seq(a + a)
        for i in {1, 2, 3, 4, 5, len(w) - 1, len(w) - 2, len(a) + 2, len(a) + 3, len(a) + 4}:
            out.append(w[:i])
    # an oversized integer whose content starts like an integer element
    for k in (30, 31, 32, 60):
        out += [b"\x30" + bytes([4 + k]) + b"\x02" + bytes([k + 2]) + b"\x02" + bytes([k]) + b"\x01" * k,
                b"\x30" + bytes([k + 7]) + b"\x02" + bytes([k + 2]) + b"\x02" + bytes([k]) + b"\x01" * k + one,
                b"\x30" + bytes([k + 5]) + b"\x02" + bytes([k + 3]) + b"\x00\x02" + bytes([k]) + b"\x01" * k]
    for _ in range(30):
        w = bytearray(seq(ref.der_int(rng.choice(vals)) + ref.der_int(rng.choice(vals))))
        w[rng.randrange(len(w))] = rng.randrange(256)
        out.append(bytes(w))
    return list(dict.fromkeys(out))


def bat_strict(cx):
    return ["sig_der %s" % (w.hex() or "-") for w in der_inputs(cx)]


def bat_lax(cx):
    return ["sig_der_lax %s" % (w.hex() or "-") for w in der_inputs(cx)]


def bat_ser(cx):
    v = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 1 << 247, (1 << 248) - 1, 1 << 248, (1 << 255) - 1, 1 << 255, N - 1, ref.HALF, cx.rng.randrange(N)]
    v += [1 << k for k in range(6, 256, 8)] + [1 << k for k in range(7, 256, 8)]
    out = []
    for i, x in enumerate(v):
        for y in (0, 1, 0x80, N - 1, v[(i * 7) % len(v)]):
            out += ["sig_ser_der %064x %064x" % (x, y), "sig_ser_der %064x %064x" % (y, x)]
            for a, b in ((x, y), (y, x)):
                out += ["sig_der %s" % ref.der(a, b).hex(), "sig_der_lax %s" % ref.der(a, b).hex()]
    return out


# ------------------------------------------------------------------ lemmas
DERASS = ("Scalar::set_b32 by its contract (C07)",)
LONG = {}


def sym(n, fx=None):
    fx = fx or {}
    return [fx[i] if i in fx else byte("b%d" % i) for i in range(n)]


def hdr(n, form):
    """length n in short form (0) or in a long form of `form` length bytes"""
    if form == 0:
        return [n]
    b = list(n.to_bytes(max(form, (n.bit_length() + 7) // 8), "big"))
    return [0x80 + len(b)] + b


def shape(parts):
    """bytes from a list of concrete lists and numbers of symbolic bytes"""
    out = []
    for p in parts:
        if isinstance(p, int):
            out += [byte("b%d" % (len(out) + i)) for i in range(p)]
        else:
            out += list(p)
    return out


def strict(cx, b, t):
    return check_parse(cx, "parse_der", ref_strict, "sig_der", b, (), t)


def lax(cx, b, t):
    return check_parse(cx, "parse_der_lax", ref_lax, "sig_der_lax", b, (), t)


def part(name, fn, sizes, battery, timeout=400):
    @lemma(name, bounds="every byte string of length %s" % ", ".join(map(str, sizes)), battery=battery, assumes=DERASS, timeout=timeout)
    def f(cx):
        for n in sizes:
            fn(cx, sym(n), "n=%d" % n)


for _name, _sizes in (("D.strict.a", range(0, 13)), ("D.strict.b", (13, 14)), ("D.strict.c", (15, 16)), ("D.strict.d", (17,)), ("D.strict.e", (18,))):
    part(_name, strict, list(_sizes), bat_strict)
for _n in range(19, 31):
    part("D.strict.%d" % _n, strict, [_n], bat_strict, 700)
for _name, _sizes in (("D.lax.a", range(0, 9)), ("D.lax.b", (9,)), ("D.lax.c", (10,))):
    part(_name, lax, list(_sizes), bat_lax)
for _n in (11, 12, 13):
    part("D.lax.%d" % _n, lax, [_n], bat_lax, 760)


def strict_long(name, sizes, rls):
    @lemma(name, bounds="byte strings of length %s starting 30 len 02 rl with len correct and rl in %s, all other bytes arbitrary" % (
        sizes, rls), battery=bat_strict, assumes=DERASS, timeout=700)
    def f(cx):
        for n in sizes:
            for rl in rls:
                strict(cx, sym(n, {0: 0x30, 1: n - 2, 2: 2, 3: rl}), "n=%d, r of %d bytes" % (n, rl))


strict_long("D.strict.l1", [8, 37, 39, 40], [0, 1, 2, 31, 32, 33, 34])
strict_long("D.strict.l2", [70, 71], [1, 32, 33, 34])
strict_long("D.strict.l3", [72, 73], [32, 33, 34])
for _n in range(31, 76, 4):
    strict_long("D.strict.L%d" % _n, [_n, _n + 1, _n + 2, _n + 3], list(range(0, 36)))

CL = (0, 1, 2, 31, 32, 33, 34)


def shapes_strict(full):
    """(description, bytes): headers enumerated, contents symbolic"""
    for rl in (CL if not full else range(0, 36)):
        for sl in (CL if not full else range(0, 36)):
            for rf, sf, qf in ((0, 0, 0),) + (((1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (0, 0, 8), (0, 8, 0)) if full or rl in (1, 33) and sl in (1, 33) else ()):
                body = [[2] + hdr(rl, rf), rl, [2] + hdr(sl, sf), sl]
                n = sum(x if isinstance(x, int) else len(x) for x in body)
                for d, tail in ((0, 0),) + (((-1, 0), (1, 0), (0, 1), (1, 1), (-1, -1)) if rf + sf + qf == 0 and (full or rl in (1, 33)) else ()):
                    yield "rl=%d/%d sl=%d/%d len form %d%+d tail %d" % (rl, rf, sl, sf, qf, d, tail), shape([[0x30] + hdr(max(n + d, 0), qf)] + body)[:None if tail >= 0 else tail] + [
                        byte("t%d" % i) for i in range(max(tail, 0))]
    # long-form sequence lengths that are needed: only non-canonical contents fill them
    for n in (126, 127, 128, 129, 255, 256) + ((60, 65535, 65536) if full else ()):
        for rl in (1, 32, 33, n - 37 if n > 40 else 0, n - 6 if n < 134 else 1):
            if n < 1000:
                yield "sequence of %d, rl=%d" % (n, rl), shape([[0x30] + hdr(n, 0 if n < 128 else 1), [2] + hdr(rl, 0 if rl < 128 else 1), min(n - 4, 34)]) + [
                    (i * 37 + 11) & 255 for i in range(max(0, n - 2 - len(hdr(rl, 0 if rl < 128 else 1)) - min(n - 4, 34)))]


def shapes_lax(full):
    for rl in (CL + (40,) if not full else tuple(range(0, 36)) + (40, 127)):
        for sl in (CL + (40,) if not full else tuple(range(0, 36)) + (40, 127)):
            few = rl in (1, 33) and sl in (1, 33)
            for rf, sf, qf in ((0, 0, 0),) + (((1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (0, 9, 0), (12, 0, 0), (0, 0, 30), (7, 7, 7), (8, 8, 8)) if few else ()):
                body = [[2] + hdr(rl, rf), rl, [2] + hdr(sl, sf), sl]
                for d, tail in ((0, 0),) + (((7, 0), (0, 3), (0, -1)) if rf + sf + qf == 0 and (full or rl in (1, 33)) else ()):
                    yield "rl=%d/%d sl=%d/%d len form %d%+d tail %d" % (rl, rf, sl, sf, qf, d, tail), shape([[0x30] + hdr(rl + sl + d, qf)] + body)[:None if tail >= 0 else tail] + [
                        byte("t%d" % i) for i in range(max(tail, 0))]


def shaped(name, fn, gen_, full, k, m, battery):
    @lemma(name, bounds="headers enumerated (integer lengths around 0, 32 and 33, long forms, wrong and missing bytes), every content; part %d of %d" % (k + 1, m),
           battery=battery, assumes=DERASS, timeout=760)
    def f(cx):
        for i, (t, b) in enumerate(gen_(full)):
            if i % m == k:
                fn(cx, b, t)


for _k in range(2):
    shaped("D.strict.s%d" % _k, strict, shapes_strict, False, _k, 2, bat_strict)
for _k in range(4):
    shaped("D.lax.s%d" % _k, lax, shapes_lax, False, _k, 4, bat_lax)
for _k in range(6):
    shaped("D.strict.S%d" % _k, strict, shapes_strict, True, _k, 6, bat_strict)
for _k in range(10):
    shaped("D.lax.S%d" % _k, lax, shapes_lax, True, _k, 10, bat_lax)


def klen(k):
    """values whose minimal encoding has k bytes, below n"""
    return (0 if k == 1 else 1 << (8 * (k - 1) - 1)), min((1 << (8 * k - 1)) - 1, N - 1)


def want_der(r, kr, s, ks):
    def num(v, k):
        return [2, k] + [tm.trunc(8, tm.lshr(256, v, 8 * i), 256) if i < 32 else 0 for i in range(k - 1, -1, -1)]
    c = num(r, kr) + num(s, ks)
    return [0x30, len(c)] + c


def ser_case(cx, kr, ks, back):
    B = cx.bv()
    eng = cx.engine(feas=B.feas)
    eng.ovcache = {}
    st = execu.State()
    r, s = tm.var("r", 256, *klen(kr)), tm.var("s", 256, *klen(ks))
    k = eng.new_heap(st, (limbs_of(r), limbs_of(s)))
    t = "r of %d bytes, s of %d" % (kr, ks)

    def mk(env):
        return ["sig_ser_der %064x %064x" % (env.get("r", klen(kr)[0]), env.get("s", klen(ks)[0]))]
    sample = mk({}) + ["sig_ser_der %064x %064x" % (klen(kr)[1], klen(ks)[1])]
    want = want_der(r, kr, s, ks)
    for s1, v in eng.run_fn(st, cx.fn(SG + "serialize_der"), [Ptr(k)]):
        if B.feas(s1.pc) == "unsat":
            continue
        h = eng.new_heap(s1, v)
        for s2, p in eng.run_fn(s1, cx.fn(ASREF), [Ptr(h)]):
            for s3, n, g in split(eng, s2, p.meta):
                if not cx.true(t + ": length", n == len(want), sample):
                    continue
                got = eng.load(s3, Ptr(p.a, g(p.p)))[p.off:p.off + n]
                cx.valid(t + ": the bytes", B, z3.And([B.z(x, 8) == B.z(y, 8) for x, y in zip(got, want)]), s3.pc, mk)
                cx.true(t + ": unchanged", eng.load(s3, Ptr(k)) == (limbs_of(r), limbs_of(s)), sample)
    cx.obligations(t, eng, B, (), mk)
    if back:
        for fn, op in (("parse_der", "sig_der"), ("parse_der_lax", "sig_der_lax")):
            B = cx.bv()
            eng = cx.engine(der_tab(B), feas=B.feas)
            eng.ovcache = {}
            st = execu.State()
            h = eng.new_heap(st, tuple(want))

            def mk2(env):
                a, b = env.get("r", klen(kr)[0]), env.get("s", klen(ks)[0])
                return ["%s %s" % (op, ref.der(a, b).hex())]
            res = eng.run_fn(st, cx.fn(SG + fn), [Ptr(h, (), 1, 0, len(want))])
            for s1, v in res:
                if B.feas(s1.pc) == "unsat":
                    continue
                for s2, d, g in split(eng, s1, v.d):
                    if not cx.valid(t + ": %s accepts it" % fn, B, int(d == 0), s2.pc, mk2) or d != 0:
                        continue
                    x, y = g(v.f[0][0])
                    cx.valid(t + ": %s returns the same r and s" % fn, B, z3.And(B.z(value_of(x), 256) == B.z(r, 256), B.z(value_of(y), 256) == B.z(s, 256)), s2.pc, mk2)
            cx.obligations(t + ", " + fn, eng, B, (), mk2)


ASREF = "<libsecp256k1::util::SignatureArray as std::convert::AsRef<[u8]>>::as_ref"
KQ = (1, 2, 3, 16, 31, 32, 33)


def ser_part(name, pairs, back, m, k):
    pairs = [p for i, p in enumerate(pairs) if i % m == k]

    @lemma(name, bounds="every reduced r and s, by the lengths of their encodings: %d of the %d pairs of lengths%s" % (
        len(pairs), 33 * 33, ", with both parsers run on the result" if back else ""), battery=bat_ser, assumes=DERASS if back else (), timeout=760)
    def f(cx):
        for a, b in pairs:
            ser_case(cx, a, b, back)


ALLP = [(a, b) for a in range(1, 34) for b in range(1, 34)]
for _k in range(4):
    ser_part("D.ser.s%d" % _k, ALLP, False, 4, _k)
for _k in range(4):
    ser_part("D.ser.b%d" % _k, [(a, b) for a in KQ for b in KQ], True, 4, _k)
for _k in range(8):
    ser_part("D.ser.B%d" % _k, ALLP, True, 8, _k)
