"""The public level: ECDSA, keys, signatures, encodings.  The real code of the crate is executed
over scalars, field elements and points known through their contracts (edom)."""
import z3
from . import terms as tm, mir, execu, gen, ref
from .terms import T
from .framework import lemma
from .mir import Ptr, E, UNDEF, Unsupported
from .ref import P, N
from .fdom import FE, FS, var, const, pmul, padd, psub, ppow, pstr
from .edom import ED, SC, MAG, Num, pkey, bytes_be
from .execu import Outcomes, Table

L = "libsecp256k1::"
EC = "libsecp256k1_core::ecdsa::<impl libsecp256k1::curve::ECMultContext>::"
EG = "libsecp256k1_core::ecdsa::<impl libsecp256k1::curve::ECMultGenContext>::"
ASSUME = ("field, scalar, group and multiplication operations by their contracts (C01-C14), with the preconditions checked at every call",
          "the curve group has prime order n (sum of multiples of one point is infinity only for a multiple of n)")

assert ref.sqrt(7) is None           # no point with x = 0


class Run:
    """one symbolic run of a function of the crate"""

    def __init__(self, cx, D=None, extra=(), feas=True):
        self.cx = cx
        self.D = D or ED()
        self.B = cx.bv()
        self.eng = cx.engine(*(list(extra) + [self.D.tab, self.D.f.tab]), feas=self.B.feas if feas else None)
        self.st = execu.State()

    def heap(self, v):
        return Ptr(self.eng.new_heap(self.st, v))

    def slice(self, vals):
        return Ptr(self.eng.new_heap(self.st, tuple(vals)), (), 1, 0, len(vals))

    def call(self, name, args, st=None):
        return self.branch(self.eng.run_fn(st or self.st, self.cx.P.fn(self.cx.find(*([name] if isinstance(name, str) else name))), args))

    def branch(self, res):
        """split final states so that the variant of a returned enum is concrete"""
        out = []
        for st, v in res:
            if isinstance(v, E):
                for s, d in self.eng.concretize(st, v.d) if isinstance(v.d, T) else [(st, v.d)]:
                    f = {d: v.f.get(d, ())}
                    fs = [(s, ())]
                    for x in f[d]:
                        fs = [(s3, acc + (y,)) for s2, acc in fs for s3, y in self.branch([(s2, x)])]
                    out += [(s2, E(d, {d: acc})) for s2, acc in fs]
            else:
                out.append((st, v))
        return out

    def ax(self):
        return self.D.axioms(self.B)

    def valid(self, name, cond, pc, mk=None):
        c = self.B.b(cond) if isinstance(cond, (T, int)) else cond
        return self.cx.valid(name, self.B, c, list(pc) + self.ax(), mk)

    def impossible(self, name, pc, mk=None):
        return self.valid(name, z3.BoolVal(False), pc, mk)

    def possible(self, pc, extra=()):
        return self.B.check(list(pc) + list(extra) + self.ax())[0] != "unsat"

    def decided(self, name, states, want, mk=None):
        """the returned flag is `want` on every path"""
        for s, rv in states:
            self.valid(name, self.B.b(rv) == self.B.b(want), s.pc, mk)
        self.cover(name, [s for s, _ in states], mk)

    def cover(self, name, states, mk=None):
        """the paths cover every input"""
        self.valid(name + ": defined for every input", z3.Or([z3.And([self.B.b(c) for c in s.pc] + [z3.BoolVal(True)]) for s in states] + [z3.BoolVal(False)]), [], mk)

    def done(self, name, mk=None):
        self.cx.obligations(name, self.eng, self.B, self.ax(), mk)
        self.D.pre_ok(self.cx, name + ": preconditions of the contracts used")


def res_kind(v):
    """0 Ok, 1 Err of a Result with a concrete discriminant"""
    if not isinstance(v, E) or not isinstance(v.d, int):
        raise Unsupported("undecided Result %r" % (v,))
    return v.d


def err_of(cx, v):
    e = v.f[1][0]
    if not isinstance(e.d, int):
        raise Unsupported("undecided error")
    t = next(t for t in cx.P.types.values() if t.get("name") in ("libsecp256k1::Error", "libsecp256k1_core::Error", "libsecp256k1_core::error::Error"))
    return t["variants"][e.d]["name"]


# ------------------------------------------------------------------ batteries
def hx(v):
    return "%064x" % v


def pt(k):
    return gen.point(k % N)


def r_points(rng, k=3):
    """points with chosen x: just above n, below p, small"""
    out = []
    for base, up in ((N, 1), (P - 1, -1), (1, 1), (P - N, -1), (P - N, 1), (N - 1, -1), (2**255, 1)):
        x, c = base, 0
        while c < k:
            x += up
            for odd in (0, 1):
                if 0 < x < P:
                    q = ref.lift(x, odd)
                    if q:
                        out.append(q)
                        c += 1
            if not 0 < x < P:
                break
    return out + [pt(rng.randrange(1, N)) for _ in range(k)] + [pt(1), pt(2), pt(N - 1)]


def sig_for(rng, R, u1=None, u2=None):
    """(r, s, Q, m) with u1 G + u2 Q = R"""
    u1 = rng.randrange(N) if u1 is None else u1
    u2 = rng.randrange(1, N) if u2 is None else u2
    r = R[0] % N
    Q = ref.mul(pow(u2, -1, N), ref.add(R, ref.neg(ref.mul(u1, ref.G))) if u1 else R)
    s = r * pow(u2, -1, N) % N
    return r, s, Q, u1 * s % N


def bat_verify(cx):
    rng = cx.rng
    out = []

    def ver(r, s, Q, m):
        if Q is None:
            return
        out.append("verify_raw %s %s %s %s" % (hx(r), hx(s), gen.aff_tok(Q), hx(m)))
        out.append("verify %s %s %s %s" % (hx(m), hx(r), hx(s), gen.aff_tok(Q)))
    for R in r_points(rng):
        for u1, u2 in ((None, None), (0, None), (1, 1), (N - 1, 1), (None, 1), (2, N - 1)):
            r, s, Q, m = sig_for(rng, R, u1, u2)
            if Q is None:
                continue
            ver(r, s, Q, m)
            ver(r, N - s, Q, m)
            if rng.random() < 0.3:
                ver(r, s, Q, (m + 1) % N)
                ver(r, s, ref.neg(Q), m)
                ver((r + 1) % N, s, Q, m)
                ver(0, s, Q, m)
                ver(r, 0, Q, m)
                # r shifted by p - n: accepted only if the addition of n wraps
            v = R[0] + P - N
            if v < N:
                u1b, u2b = rng.randrange(N), rng.randrange(1, N)
                Qb = ref.mul(pow(u2b, -1, N), ref.add(R, ref.neg(ref.mul(u1b, ref.G))))
                sb = v * pow(u2b, -1, N) % N
                ver(v, sb, Qb, u1b * sb % N)
    # combination at infinity: Q = d G, m = -r d
    for r in (1, 5, N - 1, P - N, rng.randrange(1, N)):
        d, s = rng.randrange(1, N), rng.randrange(1, N)
        ver(r, s, pt(d), (-r * d) % N)
    for m in (0, 1, N - 1):
        d, k = rng.randrange(1, N), rng.randrange(1, N)
        r = pt(k)[0] % N
        s = (m + r * d) * pow(k, -1, N) % N
        ver(r, s, pt(d), m)
    return out


def mk_sig(env):
    """candidate lines from a model: the scalars by name, Q made so that the signature is valid"""
    import random
    rng = random.Random(env.get("r", 1))
    r, s, m = (env.get(v, 7) for v in "rsm")
    out = []
    Rs = [q for x in (r, r + N) for odd in (0, 1) if 0 < x < P for q in [ref.lift(x, odd)] if q]
    if r and s:
        for R in Rs:
            u1, u2 = m * pow(s, -1, N) % N, r * pow(s, -1, N) % N
            Q = ref.mul(pow(u2, -1, N), ref.add(R, ref.neg(ref.mul(u1, ref.G))) if u1 else R)
            if Q:
                out.append("verify_raw %s %s %s %s" % (hx(r), hx(s), gen.aff_tok(Q), hx(m)))
                out.append("verify %s %s %s %s" % (hx(m), hx(r), hx(s), gen.aff_tok(Q)))
    Q = pt(rng.randrange(1, N))
    out.append("verify_raw %s %s %s %s" % (hx(r), hx(s), gen.aff_tok(Q), hx(m)))
    out.append("verify %s %s %s %s" % (hx(m), hx(r), hx(s), gen.aff_tok(Q)))
    for rid in range(4):
        out.append("recover_raw %s %s %d %s" % (hx(r), hx(s), rid, hx(m)))
    return out


def want_verify(D, r, s, m, form):
    """the ECDSA verdict for unit r, s: x(form) reduced modulo n equals r"""
    inf = D.isinf(form)
    X, _ = D.coords(form)
    x = D.f.canon(X)
    return tm.and_(1, tm.not_b(inf), tm.eq(256, D.s.reduced(x), D.s.canon(r)))


@lemma("E.verify", "all r, s, m in [0, n-1] and every finite public key in unreduced coordinates of magnitude <= 8", bat_verify, ASSUME)
def e_verify(cx):
    for fn in ("raw", "verify", "verify_with_context"):
        for case in ("r0", "s0", "unit"):
            R = Run(cx)
            D = R.D
            r = D.scp({}) if case == "r0" else D.sc("r", True)
            s = D.scp({}) if case == "s0" else D.sc("s", case == "unit")
            m = D.sc("m")
            Q = D.base("Q")
            ctx = R.heap(((),))
            pm, pq = R.heap((m,)), R.heap((D.affine(Q),))
            if fn == "raw":
                res = R.call(EC + "verify_raw", [ctx, R.heap(r), R.heap(s), R.heap(D.affine(Q)), R.heap(m)])
            else:
                a = [pm, R.heap((r, s)), pq] + ([ctx] if fn != "verify" else [])
                res = R.call(L + fn, a)
            t = "verify%s, %s" % ("_raw" if fn == "raw" else "" if fn == "verify" else "_with_context", {"r0": "r = 0", "s0": "s = 0", "unit": "r, s nonzero"}[case])
            if case == "unit":
                si = D.s.inverse(s.p)
                form = D.fadd(D.fscale(Q, pmul(r.p, si, N)), D.fscale(D.base("G"), pmul(m.p, si, N)))
                want = want_verify(D, r.p, s.p, m.p, form)
            else:
                want = 0
            R.decided(t, res, want, mk_sig)
            R.done(t, mk_sig)


# ------------------------------------------------------------------ recovery
def bat_recover(cx):
    rng = cx.rng
    out = []
    for R in r_points(rng):
        for u1, u2 in ((None, None), (0, None), (1, 1)):
            r, s, Q, m = sig_for(rng, R, u1, u2)
            for rid in range(4):
                out.append("recover_raw %s %s %d %s" % (hx(r), hx(s), rid, hx(m)))
                out.append("recover %s %s %s %d" % (hx(m), hx(r), hx(s), rid))
    for _ in range(20):
        r, s, m = (rng.randrange(N) for _ in range(3))
        out += ["recover_raw %s %s %d %s" % (hx(r), hx(s), rid, hx(m)) for rid in range(4)]
    for r in list(range(0, 12)) + [P - N - i for i in range(-3, 6)] + [N - 1, N - 2]:
        s, m = rng.randrange(1, N), rng.randrange(N)
        out += ["recover_raw %s %s %d %s" % (hx(r), hx(s), rid, hx(m)) for rid in range(4)]
    for r, s in ((0, 1), (1, 0), (0, 0)):
        out += ["recover_raw %s %s %d %s" % (hx(r), hx(s), rid, hx(5)) for rid in range(4)]
    # Q at infinity: s R = m G with R = k G
    for k in (1, 2, 3, N - 1):
        R = pt(k)
        r, s = R[0] % N, rng.randrange(1, N)
        out += ["recover_raw %s %s %d %s" % (hx(r), hx(s), rid, hx(s * k % N)) for rid in range(4)]
        out += ["recover %s %s %s %d" % (hx(s * k % N), hx(r), hx(s), rid) for rid in range(4)]
    return out


@lemma("E.recover", "all r, s, m in [0, n-1], every recovery id 0..3", bat_recover, ASSUME)
def e_recover(cx):
    for fn in ("raw", "recover", "recover_with_context"):
        for case in ("r0", "s0", "unit"):
            R = Run(cx)
            D, B = R.D, R.B
            r = D.scp({}) if case == "r0" else D.sc("r", True)
            s = D.scp({}) if case == "s0" else D.sc("s", case == "unit")
            m = D.sc("m")
            rid = tm.var("rid", 8, 0, 3)
            if case == "unit":
                x0 = D.f.from_int(D.s.canon(r.p))
                D.lifted += [D.f.reduce(x0), D.f.reduce(padd(x0, const(N)))]
            ctx = R.heap(((),))
            if fn == "raw":
                res = R.call(EC + "recover_raw", [ctx, R.heap(r), R.heap(s), rid, R.heap(m)])
            else:
                a = [R.heap((m,)), R.heap((r, s)), R.heap((rid,))] + ([ctx] if fn != "recover" else [])
                res = R.call(L + fn, a)
            t = "%s, %s" % ("recover_raw" if fn == "raw" else fn, {"r0": "r = 0", "s0": "s = 0", "unit": "r, s nonzero"}[case])
            mk = mk_sig
            for sx, rv in res:
                if not R.possible(sx.pc):
                    continue
                if case != "unit":
                    cx.true(t + ": refused", res_kind(rv) == 1)
                    continue
                rt = D.s.canon(r.p)
                big = tm.trunc(1, tm.lshr(8, rid, 1), 8)
                odd = tm.trunc(1, rid, 8)
                x0 = D.f.from_int(rt)
                # on this path: which x?
                for hi in (0, 1):
                    hc = B.b(big) == bool(hi)
                    if B.check(list(sx.pc) + [hc])[0] == "unsat":
                        continue
                    pc = list(sx.pc) + [hc]
                    x = padd(x0, const(N)) if hi else x0
                    exists = D.f.square_test(D.f.reduce(padd(ppow(x, 3), const(7))))
                    if hi:
                        exists = tm.and_(1, exists, tm.ult(256, rt, P - N))
                    # the base point with this x, if the code made one
                    bs = [(b, xy) for b, xy in D.bases.items() if pkey(D.f.reduce(xy[0])) == pkey(D.f.reduce(x))]
                    ok = res_kind(rv) == 0
                    if not bs:
                        cx.true(t + ": no key without a point", not ok)
                        if not ok:
                            R.valid(t + ": refused only when R does not exist", B.b(exists) == False, pc, mk)
                        continue
                    b, (bx, by) = bs[0]
                    par = D.f.parity(D.f.reduce(by))
                    ri = D.s.inverse(r.p)
                    for sgn in (0, 1):
                        pc2 = pc + [B.b(par) == (B.b(odd) if not sgn else z3.Not(B.b(odd)))]
                        if not R.possible(pc2):
                            continue
                        k = const(-1 if sgn else 1, N)
                        form = D.fadd(D.fscale({b: const(1, N)}, pmul(pmul(s.p, ri, N), k, N)), D.fscale(D.base("G"), pmul(padd({}, m.p, -1, N), ri, N)))
                        inf = D.isinf(form)
                        if ok:
                            R.valid(t + ": a key is returned only when R exists and Q is finite", z3.And(B.b(exists), z3.Not(B.b(inf))), pc2, mk)
                            q = rv.f[0][0]
                            q = q if fn == "raw" else q[0]
                            cx.true(t + ": finite key", q[2] == 0)
                            got = D.decode_affine(q)
                            cx.result(t + ": key is (s R - m G) / r", "unsat" if D.fkey(got) == D.fkey(form) else "unknown", detail="%s / %s" % (got, form))
                            cx.true(t + ": coordinates within magnitude %d" % MAG, D.f.lift(q[0]).mag <= MAG and D.f.lift(q[1]).mag <= MAG)
                            # the recovered key verifies the signature
                            st2 = sx.fork()
                            for c in pc2[len(sx.pc):]:
                                pass
                            a = [R.heap((m,)), R.heap((r, s)), Ptr(R.eng.new_heap(st2, (q,))), ctx]
                            for p in a[:2]:
                                st2.mem[p.a] = R.st.mem.get(p.a, (m,) if p is a[0] else (r, s))
                            st2.mem[ctx.a] = ((),)
                            for s3, v3 in R.call(L + "verify_with_context", a, st2):
                                R.valid(t + ": the recovered key verifies the signature", B.b(v3), list(s3.pc) + pc2[len(sx.pc):], mk)
                        else:
                            R.valid(t + ": refused only when R does not exist or Q is infinity", z3.Or(z3.Not(B.b(exists)), B.b(inf)), pc2, mk)
            R.cover(t, [x for x, _ in res], mk)
            R.done(t, mk)


# ------------------------------------------------------------------ signing
def bat_sign(cx):
    rng = cx.rng
    out = []
    ks = [1, 2, 3, N - 1, N - 2, ref.HALF, ref.HALF + 1] + [rng.randrange(1, N) for _ in range(12)]
    ds = [1, 2, N - 1, ref.HALF + 1] + [rng.randrange(1, N) for _ in range(6)]
    ms = [0, 1, N - 1, 2**255] + [rng.randrange(N) for _ in range(6)]
    for k in ks:
        for d in rng.sample(ds, 4):
            for m in rng.sample(ms, 3):
                out.append("sign_raw %s %s %s" % (hx(d), hx(m), hx(k)))
            r = pt(k)[0] % N
            for s in (0, 1, ref.HALF, ref.HALF + 1, N - 1, N - 2, ref.HALF - 1):
                out.append("sign_raw %s %s %s" % (hx(d), hx((s * k - r * d) % N), hx(k)))
    for d in ds:
        for m in ms[:5]:
            out.append("sign %s %s" % (hx(m), hx(d)))
    return out


def mk_sign(env):
    k, d, m = (env.get(x, y) for x, y in (("k", 3), ("d", 5), ("m", 7)))
    out = []
    for kk in {k, 1, 2, 3, 4, N - 1}:
        if not kk:
            continue
        r = pt(kk)[0] % N
        mm = [m]
        if "s" in env:
            mm.append((env["s"] * kk - r * d) % N)
        out += ["sign_raw %s %s %s" % (hx(d), hx(x), hx(kk)) for x in mm]
    return out


SIGN_NOTE = ("r not zero: the two nonces +-k with x(kG) = n, whose discrete logarithm is unknown, are excluded (n is a valid x coordinate; there r would be 0)",)


def sign_world(cx, s0, hi, extra=()):
    """the signing inputs: the message is written as s k - r d (a bijection between m and s for
    given k, d); s0: the message for which s = 0; hi: the x coordinate is above n"""
    R = Run(cx, extra=extra)
    D = R.D
    k, d = D.sc("k", True), D.sc("d", True)
    X, Y = D.coords(D.fscale(D.base("G"), k.p))
    x = D.xrange(X, *((N + 1, P - 1) if hi else (1, N - 1)))
    r = D.s.from_int(x)
    if hi:
        D.f.byterm[D.s.canon(r).id] = psub(X, const(N))
    s = {} if s0 else D.s.one("s", True)
    m = D.scp(psub(pmul(s, k.p, N), pmul(r, d.p, N), N))
    return R, D, k, d, m, r, s, x, Y


@lemma("E.sign", "every secret key d and nonce k in [1, n-1], every message", bat_sign, ASSUME + SIGN_NOTE)
def e_sign(cx):
    for s0, hi in ((0, 0), (0, 1), (1, 0), (1, 1)):
        R, D, k, d, m, r, s, x, Y = sign_world(cx, s0, hi)
        B = R.B
        xn = []
        t = "sign_raw, x %s n" % ("above" if hi else "below") + (", message with s = 0" if s0 else "")
        st = R.st
        pd, pm, pk = R.heap(d), R.heap(m), R.heap(k)
        res = R.call(EG + "sign_raw", [R.heap(((),)), pd, pm, pk])
        for sx, rv in res:
            if not R.possible(sx.pc, xn):
                continue
            pc = list(sx.pc) + xn
            if s0:
                cx.true(t + ": refused", res_kind(rv) == 1)
                continue
            if not cx.true(t + ": succeeds", res_kind(rv) == 0):
                continue
            r2, s2, rid = rv.f[0][0]
            r2, s2 = D.lift(r2), D.lift(s2)
            R.valid(t + ": r is the x coordinate modulo n", B.z(D.s.canon(r2.p), 256) == B.z(D.s.reduced(x), 256), pc, mk_sign)
            ct, c2 = D.s.canon(s), D.s.canon(s2.p)
            lo = tm.ult(256, (N - 1) // 2, ct)
            R.valid(t + ": s is the low one of +-(m + r d) / k", B.z(c2, 256) == B.z(tm.ite(256, lo, tm.sub(256, N, ct), ct), 256), pc, mk_sign)
            par = D.f.parity(D.f.reduce(Y))
            w = tm.or_(8, tm.ite(8, tm.ult(256, x, N), 0, 2), tm.zext(8, tm.xor(1, par, lo), 1))
            R.valid(t + ": recovery id", B.z(rid, 8) == B.z(w, 8), pc, mk_sign)
            # recovery and verification with the result
            st2 = sx.fork()
            h = lambda v: Ptr(R.eng.new_heap(st2, v))
            Q = D.fscale(D.base("G"), d.p)
            ctx = h(((),))
            for s3, v3 in R.call(L + "verify_with_context", [h((m,)), h((r2, s2)), h((D.affine(Q),)), ctx], st2.fork()):
                R.valid(t + ": the signature verifies under the signer's key", B.b(v3), list(s3.pc) + xn, mk_sign)
            for s3, v3 in R.call(L + "recover_with_context", [h((m,)), h((r2, s2)), h((rid,)), ctx], st2.fork()):
                if not R.possible(list(s3.pc) + xn):
                    continue
                if not cx.true(t + ": recovery succeeds", res_kind(v3) == 0, cands=()):
                    continue
                got = D.decode_affine(v3.f[0][0][0])
                cx.result(t + ": the recovery id gives back the signer's key", "unsat" if D.fkey(got) == D.fkey(Q) else "unknown", detail=str(got))
        R.cover(t, [q for q, _ in res], mk_sign)
        R.done(t, mk_sign)
