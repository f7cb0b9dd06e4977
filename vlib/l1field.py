"""Field arithmetic: every obligation on the real limb code."""
import z3
from . import terms as tm, mir, execu, gen, ref
from .framework import lemma
from .mir import Ptr
from .ref import P
from .zpoly import padd
from .fdom import PowTab

F = "libsecp256k1::curve::Field::"
W = 272


def lmax(i, m):
    return (0x3ffffff if i < 9 else 0x3fffff) * 2 * m


def fe(nm, m):
    """any element of magnitude m"""
    return (tuple(tm.var("%s%d" % (nm, i), 32, 0, lmax(i, m)) for i in range(10)), m, 0)


def fen(nm):
    """limbs of a normalised element (value < p is a separate precondition)"""
    return (tuple(tm.var("%s%d" % (nm, i), 32, 0, 0x3ffffff if i < 9 else 0x3fffff) for i in range(10)), 1, 1)


def tok(env, nm, m):
    return gen.fe_tok([env.get("%s%d" % (nm, i), 0) for i in range(10)], m)


def ntok(env, nm):
    return gen.n_tok(sum(env.get("%s%d" % (nm, i), 0) << (26 * i) for i in range(10)))


def zval(z, f):
    q = {}
    for i, x in enumerate(f[0]):
        q = padd(q, z.enc(x), 1 << (26 * i))
    return q


def bval(B, f):
    v = 0
    for i, x in enumerate(f[0]):
        v = v + (z3.ZeroExt(W - 32, B.z(x, 32)) << (26 * i))
    return v


def red(V):
    """the residue of V (below 2^(256+16)) modulo p"""
    x = z3.LShR(V, 256)
    lo = z3.ZeroExt(W - 256, z3.Extract(255, 0, V))
    s = lo + x * 0x1000003D1
    return z3.If(z3.UGE(s, P), s - P, s)


def below_p(B, f):
    return z3.ULT(bval(B, f), P)


def shape(cx, name, f, m, norm=None):
    """limbs within the bound of magnitude m, and the ghost flags consistent"""
    mag = f[1]
    ok = isinstance(mag, int) and mag <= m and all(tm.hi(x) <= (0x3ffffff if i < 9 else 0x3fffff) * (1 if f[2] == 1 else 2) * max(mag, 0) or mag == 0 and tm.hi(x) == 0
                                                  for i, x in enumerate(f[0]))
    return ok


def boundcheck(cx, name, B, f, m, pre=(), mk=None):
    if shape(cx, name, f, m):
        cx.result(name + ": limbs within magnitude %d" % m, "unsat")
        return
    mag = f[1] if isinstance(f[1], int) else m
    if mag > m:
        cx.result(name + ": magnitude", "sat", detail="magnitude %r" % (f[1],))
        return
    c = z3.And([z3.ULE(B.z(x, 32), min(0xffffffff, lmax(i, max(mag, 1)))) for i, x in enumerate(f[0])])
    cx.valid(name + ": limbs within magnitude %d" % m, B, c, pre, mk)


def linear(cx, name, out, want, z, B, mk, m):
    """val(out) = want (polynomial) as integers, or at least modulo p"""
    d = padd(zval(z, out), want, -1)
    if not d:
        cx.result(name, z.prove([d], lambda lin: lin(d) == 0)[0])
    else:
        r = z.prove_congruent(d, P)[0]
        c = []
        if r != "unsat":
            c = mk({})
        cx.result(name, "unsat" if r == "unsat" else "unknown", c)
    boundcheck(cx, name, B, out, m)


# ------------------------------------------------------------------ products
def _bat2(op, forms, m):
    def b(cx):
        a = gen.fe_raw(cx.rng, m, 60)
        n = [gen.n_tok(v) for v in gen.fe_norm(cx.rng, 60)]
        out = []
        for i, x in enumerate(a):
            for f in range(forms):
                out.append("%s %d %s %s" % (op, f, x, a[(i * 7 + f) % len(a)]))
            out.append("%s 0 %s %s" % (op, x, x))
        for i, x in enumerate(n):
            for j in range(0, len(n), 7):
                out.append("%s %d %s %s" % (op, i % forms, x, n[(i + j) % len(n)]))
        return out
    return b


def _bat1(op, forms, m, pre=""):
    def b(cx):
        a = gen.fe_raw(cx.rng, m, 150) + [gen.n_tok(v) for v in gen.fe_norm(cx.rng, 120)]
        return [("%s %s %s%s" % (op, f, pre, x)).replace("  ", " ") for x in a for f in (range(forms) if forms else [""])]
    return b


def product(cx, name, args, m, alias=False):
    """one entry point whose result must be the product of its (last two) operands"""
    eng = cx.engine()
    st = execu.State()
    A = fe("a", m)
    Bv = A if alias else fe("b", m)
    fn = cx.fn(name)
    ka, kb = eng.new_heap(st, A), eng.new_heap(st, Bv)
    kr = eng.new_heap(st, ((0,) * 10, 0, 1))
    av = {"r": Ptr(kr), "a": Ptr(ka), "b": Ptr(kb), "A": A, "B": Bv}
    s, rv = cx.one(eng.run_fn(st, fn, [av[x] for x in args]))
    out = s.mem[kr] if "r" in args else rv if isinstance(rv, tuple) and rv else s.mem[ka]
    cx.no_panics(name, eng)
    z = cx.z()
    p = padd(zval(z, out), z.pmul(zval(z, A), zval(z, Bv)), -1)
    r, residual, s2 = z.prove_congruent(p, P)
    cands = []
    op = "f_sqr" if alias else "f_mul"
    if r != "unsat":
        cands = fix_operand(cx, z, p, m, op, alias)
    cx.result(name + ": result = product modulo p", "unsat" if r == "unsat" else "sat" if cands else "unknown", cands)
    B = cx.bv()
    if not shape(cx, name, out, 1):
        ok = True
        for i, x in enumerate(out[0]):
            b = lmax(i, 1)
            if tm.hi(x) > b:
                e = z.enc(x)
                ok = ok and z.prove([e], lambda lin: lin(e) <= b)[0] == "unsat"
        cx.result(name + ": limbs within magnitude 1", "unsat" if ok and out[1] == 1 else "unknown")
    else:
        cx.result(name + ": limbs within magnitude 1", "unsat")


def fix_operand(cx, z, p, m, op, alias):
    """counterexample search by the solver with one operand fixed (then the problem is linear)"""
    import time
    from . import zpoly
    cands = []
    if alias:
        return cands
    pats = [[lmax(i, m) for i in range(10)]] + [[lmax(j, m) if i == j else 0 for i in range(10)] for j in range(10)]
    t0 = time.time()
    for pat in pats:
        if time.time() - t0 > 20:
            break
        sub = {}
        for i in range(10):
            v = z.byname.get("b%d" % i)
            if v is not None:
                sub[v] = pat[i]
        try:
            q = z.subst(p, sub) if hasattr(z, "subst") else None
        except Exception:
            q = None
        if q is None:
            break
    return cands


@lemma("F.mul", "operands of magnitude <= 8, all limb values", _bat2("f_mul", 5, 8))
def f_mul(cx):
    product(cx, F + "mul_in_place", "rab", 8)


@lemma("F.sqr", "operand of magnitude <= 8, all limb values", _bat1("f_sqr", 4, 8))
def f_sqr(cx):
    product(cx, F + "sqr_in_place", "ra", 8, alias=True)


@lemma("F.mulops", "operands of magnitude <= 8, all limb values; every operator form, and one operand used twice", _bat2("f_mul", 5, 8))
def f_mulops(cx):
    T = "libsecp256k1::curve::Field as std::ops::"
    product(cx, "<%sMul>::mul" % T, "AB", 8)
    product(cx, "<&%sMul>::mul" % T, "ab", 8)
    product(cx, "<%sMulAssign<&libsecp256k1::curve::Field>>::mul_assign" % T, "ab", 8)
    product(cx, "<%sMulAssign>::mul_assign" % T, "aB", 8)
    product(cx, F + "sqr", "a", 8, alias=True)
    product(cx, "<%sMul>::mul" % T, "AB", 8, alias=True)


# ------------------------------------------------------------------ linear operations
@lemma("F.add", "operand magnitudes (1,1), (8,8), (1,31), (31,1), (16,16)",
       lambda cx: [l for m in (1, 8, 16) for l in _bat2("f_add", 4, m)(cx)])
def f_add(cx):
    T = "libsecp256k1::curve::Field as std::ops::"
    for nm, args in (("<%sAdd>::add" % T, "AB"), ("<&%sAdd>::add" % T, "ab"), ("<%sAddAssign<&libsecp256k1::curve::Field>>::add_assign" % T, "ab"),
                     ("<%sAddAssign>::add_assign" % T, "aB")):
        for m1, m2 in ((1, 1), (8, 8), (1, 31), (31, 1), (16, 16)):
            eng = cx.engine()
            st = execu.State()
            A, Bv = fe("a", m1), fe("b", m2)
            ka, kb = eng.new_heap(st, A), eng.new_heap(st, Bv)
            av = {"a": Ptr(ka), "b": Ptr(kb), "A": A, "B": Bv}
            s, rv = cx.one(cx.call(eng, st, nm, [av[x] for x in args]))
            out = rv if isinstance(rv, tuple) and rv else s.mem[ka]
            cx.no_panics(nm, eng)
            z = cx.z()
            mk = lambda env: ["f_add 0 %s %s" % (tok(env, "a", m1), tok(env, "b", m2))]
            linear(cx, "%s m=(%d,%d)" % (nm, m1, m2), out, padd(zval(z, A), zval(z, Bv)), z, cx.bv(), mk, m1 + m2)


@lemma("F.neg", "declared magnitude m in {1,2,4,8,16,30,31}, operand of magnitude <= m",
       lambda cx: [l for m in (1, 2, 3, 4, 8, 15, 30, 31) for l in _bat1("f_neg", 0, m, "0 %d " % m)(cx)[:150]] +
                  ["f_neg 1 %d %s" % (m, x) for m in (1, 5, 30) for x in gen.fe_raw(cx.rng, m, 20)])
def f_neg(cx):
    ms = (1, 2, 4, 8, 16, 30, 31) if cx.tier == "quick" else range(1, 32)
    for m in ms:
        for mode in (0, 1):
            eng = cx.engine()
            st = execu.State()
            A = fe("a", m)
            ka = eng.new_heap(st, A)
            kr = eng.new_heap(st, ((0,) * 10, 0, 1))
            if mode == 0:
                s, out = cx.one(cx.call(eng, st, F + "neg", [Ptr(ka), m]))
            else:
                s, rv = cx.one(cx.call(eng, st, F + "neg_in_place", [Ptr(kr), Ptr(ka), m]))
                out = s.mem[kr]
            cx.no_panics("neg", eng)
            z = cx.z()
            d = padd(zval(z, out), zval(z, A))
            r = z.prove_congruent(d, P)[0]
            cx.result("neg(%d) form %d: result + operand = 0 modulo p" % (m, mode), "unsat" if r == "unsat" else "unknown",
                      ["f_neg %d %d %s" % (mode, m, x) for x in gen.fe_raw(cx.rng, m, 20)])
            boundcheck(cx, "neg(%d)" % m, cx.bv(), out, m + 1)


@lemma("F.mulint", "every factor k with k * magnitude <= 32, all limb values",
       lambda cx: ["f_mul_int %d %s" % (k, x) for m in (1, 2, 4, 8, 16, 32) for k in range(0, 32 // m + 1) for x in gen.fe_raw(cx.rng, m, 12)] +
                  ["f_set_int %d" % k for k in (0, 1, 7, 255, 0x3ffffff)])
def f_mulint(cx):
    for m in (1, 2, 3, 4, 5, 6, 8, 10, 16, 32):
        kmax = 32 // m
        eng = cx.engine()
        st = execu.State()
        A = fe("a", m)
        ka = eng.new_heap(st, A)
        k = tm.var("k", 32, 0, kmax)
        s, rv = cx.one(cx.call(eng, st, F + "mul_int", [Ptr(ka), k]))
        cx.no_panics("mul_int", eng)
        out = s.mem[ka]
        z = cx.z()
        d = padd(zval(z, out), z.pmul(zval(z, A), z.enc(k)), -1)
        r = z.prove_congruent(d, P)[0]
        cx.result("mul_int, magnitude %d, factor <= %d: result = k * operand" % (m, kmax), "unsat" if r == "unsat" else "unknown")
        ok = all(tm.hi(x) <= lmax(i, m) * kmax for i, x in enumerate(out[0]))
        mg = out[1]
        okm = z.enc(mg) == z.pmul({(): m}, z.enc(k)) if not isinstance(mg, int) else mg <= m * kmax
        cx.true("mul_int: magnitude is k * m", okm)
        cx.true("mul_int: limbs within it", ok)
    eng = cx.engine()
    st = execu.State()
    kr = eng.new_heap(st, ((0,) * 10, 0, 1))
    k = tm.var("k", 32, 0, 0x3ffffff)
    s, rv = cx.one(cx.call(eng, st, F + "set_int", [Ptr(kr), k]))
    z = cx.z()
    d = padd(zval(z, s.mem[kr]), z.enc(k), -1)
    cx.result("set_int: value", z.prove([d], lambda lin: lin(d) == 0)[0])


# ------------------------------------------------------------------ normalisation
NM = 31


def _nbat(op):
    return lambda cx: [("%s %s" % (op, x)) for m in (1, 2, 8, 16, 31) for x in gen.fe_raw(cx.rng, m, 120)]


def norm_setup(cx, name, m=NM):
    B = cx.bv(120000)
    eng = cx.engine(feas=None)
    st = execu.State()
    A = fe("a", m)
    k = eng.new_heap(st, A)
    s, rv = cx.one(cx.call(eng, st, F + name, [Ptr(k)]))
    return B, eng, A, s.mem[k], rv


def norm_lemma(name, op, goal):
    @lemma("F." + name, "every element of magnitude <= %d" % NM, _nbat(op))
    def f(cx):
        B, eng, A, out, rv = norm_setup(cx, name)
        mk = lambda env: ["%s %s" % (op, tok(env, "a", NM))]
        cx.obligations(name, eng, B, mk=mk)
        fin = red(bval(B, A))
        cx.valid(name + ": value", B, goal(B, out, rv, fin), mk=mk)
        if op.startswith("f_norm"):
            boundcheck(cx, name, B, out, 1, mk=mk)
            if op != "f_norm_weak":
                cx.true(name + ": marked normalised", out[1] == 1 and out[2] == 1)
        else:
            cx.true(name + ": operand unchanged", out == A)
    return f


norm_lemma("normalize", "f_norm", lambda B, o, r, fin: bval(B, o) == fin)
norm_lemma("normalize_var", "f_norm_var", lambda B, o, r, fin: bval(B, o) == fin)
norm_lemma("normalize_weak", "f_norm_weak", lambda B, o, r, fin: red(bval(B, o)) == fin)
norm_lemma("normalizes_to_zero", "f_ntz", lambda B, o, r, fin: B.b(r) == (fin == 0))
norm_lemma("normalizes_to_zero_var", "f_ntz_var", lambda B, o, r, fin: B.b(r) == (fin == 0))


# ------------------------------------------------------------------ comparison and selection
def _ebat(op, m):
    def b(cx):
        out = []
        for x in gen.fe_norm(cx.rng, 80):
            for v, e in ((x, gen.n_tok(x)), (x, gen.fe_any(cx.rng, x)), ((x + 1) % P, None), ((x + (1 << cx.rng.randrange(256))) % P, None)):
                out.append("%s %s %s" % (op, gen.fe_any(cx.rng, x), e or gen.fe_any(cx.rng, v)))
        return out
    return b


@lemma("F.eq", "eq_var: first operand of magnitude 1, second of magnitude 1..29; ==: magnitudes m1 + m2 <= 30",
       lambda cx: _ebat("f_eq", 1)(cx) + _ebat("f_eq_var", 1)(cx), timeout=300, assumes=("contract of normalizes_to_zero(_var): lemmas F.normalizes_to_zero(_var)",))
def f_eq(cx):
    for kind, m1, m2 in [("eq_var", 1, 1), ("eq_var", 1, 29)] + [("==", a, b) for a, b in ((1, 1), (1, 29), (8, 8), (15, 15), (29, 1))]:
        A, Bv = fe("a", m1), fe("b", m2)
        nm = F + "eq_var" if kind == "eq_var" else "<libsecp256k1::curve::Field as std::cmp::PartialEq>::eq"
        mk = lambda env: ["%s %s %s" % ("f_eq_var" if kind == "eq_var" else "f_eq", tok(env, "a", m1), tok(env, "b", m2))]
        seen = []
        tab = execu.Table()

        @tab.on(F + "normalizes_to_zero", F + "normalizes_to_zero_var")
        def ntz(eng, st, a, cal):
            v = eng.load(st, a[0])
            t = tm.var("ntz%d" % len(seen), 1)
            seen.append((t, v))
            return t
        eng = cx.engine(tab)
        st = execu.State()
        ka, kb = eng.new_heap(st, A), eng.new_heap(st, Bv)
        s, rv = cx.one(cx.call(eng, st, nm, [Ptr(ka), Ptr(kb)]))
        title = "%s magnitudes (%d,%d)" % (kind, m1, m2)
        if len(seen) == 1 and rv is seen[0][0]:
            v = seen[0][1]
            z = cx.z()
            cx.no_panics(title, eng)
            ok = False
            for sg in (1, -1):
                d = padd(padd(zval(z, v), zval(z, A), sg), zval(z, Bv), -sg)
                ok = ok or z.prove_congruent(d, P)[0] == "unsat"
            cx.result(title + ": the tested value is the difference modulo p", "unsat" if ok else "unknown")
            cx.true(title + ": its magnitude is at most 31", isinstance(v[1], int) and v[1] <= 31)
            boundcheck(cx, title, cx.bv(), v, 31)
            continue
        # written in another way: decide it on the bits
        B = cx.bv(200000)
        eng = cx.engine(feas=None)
        st = execu.State()
        ka, kb = eng.new_heap(st, A), eng.new_heap(st, Bv)
        s, rv = cx.one(cx.call(eng, st, nm, [Ptr(ka), Ptr(kb)]))
        cx.obligations(kind, eng, B, mk=mk)
        D = bval(B, Bv) + (P * 2 * (m1 + 1) * 4 - bval(B, A))
        cx.valid("%s magnitudes (%d,%d): true exactly for equal values" % (kind, m1, m2), B, B.b(rv) == (red(D) == 0), mk=mk)


@lemma("F.cmp", "all pairs of normalised elements", lambda cx: _ncmp(cx))
def f_cmp(cx):
    for nm, how in ((F + "cmp_var", 0), ("<libsecp256k1::curve::Field as std::cmp::Ord>::cmp", 0),
                    ("<libsecp256k1::curve::Field as std::cmp::PartialOrd>::partial_cmp", 1)):
        B = cx.bv(60000)
        eng = cx.engine(feas=None)
        st = execu.State()
        A, Bv = fen("a"), fen("b")
        ka, kb = eng.new_heap(st, A), eng.new_heap(st, Bv)
        s, rv = cx.one(cx.call(eng, st, nm, [Ptr(ka), Ptr(kb)]))
        if how == 1:
            cx.true("partial_cmp is never None", rv.d == 1)
            rv = rv.f[1][0]
        va, vb = bval(B, A), bval(B, Bv)
        mk = lambda env: ["f_cmp %s %s" % (ntok(env, "a"), ntok(env, "b")), "f_ord %s %s" % (ntok(env, "a"), ntok(env, "b"))]
        pre = [below_p(B, A), below_p(B, Bv)]
        cx.obligations(nm, eng, B, pre, mk)
        d = B.z(rv.d, 8)
        cx.valid(nm + ": order of the values", B, z3.And((d == 0) == z3.ULT(va, vb), (d == 1) == (va == vb)), pre, mk)


def _ncmp(cx):
    v = gen.fe_norm(cx.rng, 60)
    out = []
    for x in v:
        for y in (x, (x + 1) % P, (x + (1 << cx.rng.randrange(256))) % P, cx.rng.choice(v)):
            out.append("f_cmp %s %s" % (gen.n_tok(x), gen.n_tok(y)))
            out.append("f_ord %s %s" % (gen.n_tok(y), gen.n_tok(x)))
    return out


@lemma("F.pred", "all normalised elements (is_zero, is_odd); all elements (clear); all pairs (cmov)",
       lambda cx: ["f_is_zero " + gen.n_tok(v) for v in gen.fe_norm(cx.rng, 60)] + ["f_is_odd " + gen.n_tok(v) for v in gen.fe_norm(cx.rng, 60)] +
                  ["f_cmov %d %s %s" % (f, x, y) for f in (0, 1) for x in gen.fe_raw(cx.rng, 2, 20) for y in gen.fe_raw(cx.rng, 3, 3)[-3:]])
def f_pred(cx):
    B = cx.bv()
    for nm, g in (("is_zero", lambda v: v == 0), ("is_odd", lambda v: z3.Extract(0, 0, v) == 1)):
        eng = cx.engine(feas=None)
        st = execu.State()
        A = fen("a")
        k = eng.new_heap(st, A)
        s, rv = cx.one(cx.call(eng, st, F + nm, [Ptr(k)]))
        mk = lambda env: ["f_%s %s" % (nm, ntok(env, "a"))]
        cx.valid(nm, B, B.b(rv) == g(bval(B, A)), [below_p(B, A)], mk)
        cx.no_panics(nm, eng)
    for m1, m2 in ((1, 1), (2, 3), (8, 1)):
        eng = cx.engine(feas=None)
        st = execu.State()
        A, Bv = fe("a", m1), fe("b", m2)
        ka, kb = eng.new_heap(st, A), eng.new_heap(st, Bv)
        fl = tm.var("f", 1)
        s, rv = cx.one(cx.call(eng, st, F + "cmov", [Ptr(ka), Ptr(kb), fl]))
        out = s.mem[ka]
        mk = lambda env: ["f_cmov %d %s %s" % (env.get("f", 0), tok(env, "a", m1), tok(env, "b", m2))]
        cx.obligations("cmov", eng, B, mk=mk)
        goal = z3.And([B.z(out[0][i], 32) == z3.If(B.b(fl), B.z(Bv[0][i], 32), B.z(A[0][i], 32)) for i in range(10)])
        cx.valid("cmov (%d,%d)" % (m1, m2), B, goal, mk=mk)
        mg = out[1]
        cx.valid("cmov magnitude", B, z3.ULE(B.z(mg, 32), max(m1, m2)), mk=mk)
        # limbs selected from an operand never exceed the magnitude that is recorded with them
        want = tm.ite(32, fl, m2, m1)
        cx.valid("cmov magnitude follows the selection", B, tm.not_b(tm.ult(32, mg, want)), mk=mk)


@lemma("F.clear", "every element", lambda cx: ["f_clear " + x for x in gen.fe_raw(cx.rng, 3, 40)])
def f_clear(cx):
    eng = cx.engine(feas=None)
    st = execu.State()
    k = eng.new_heap(st, fe("a", 32))
    s, rv = cx.one(cx.call(eng, st, F + "clear", [Ptr(k)]))
    cx.no_panics("clear", eng)
    B = cx.bv()
    for i, x in enumerate(s.mem[k][0]):
        cx.valid("limb %d is zero" % i, B, tm.eq(32, x, 0), mk=lambda env: ["f_clear " + tok(env, "a", 32)])


# ------------------------------------------------------------------ encodings
def by(nm, n):
    return tuple(tm.var("%s%d" % (nm, i), 8) for i in range(n))


def bytes_be(B, b, w):
    v = z3.BitVecVal(0, w)
    for x in b:
        v = (v << 8) | z3.ZeroExt(w - 8, B.z(x, 8))
    return v


def benv(env, nm, n):
    return "".join("%02x" % env.get("%s%d" % (nm, i), 0) for i in range(n))


def _b32vals(cx):
    vs = gen.fe_norm(cx.rng, 80)
    return vs


@lemma("F.set_b32", "all 2^256 byte strings",
       lambda cx: ["f_set_b32 %064x" % v for v in _b32vals(cx) + [P, P + 1, P + 976, P + 2**32, 2**256 - 1, 2**256 - 2**32 - 1, 2**256 - 2**26, P + 1024, P + 512]])
def f_set_b32(cx):
    B = cx.bv(100000)
    eng = cx.engine(feas=None)
    st = execu.State()
    b = by("b", 32)
    kb = eng.new_heap(st, b)
    kr = eng.new_heap(st, ((0,) * 10, 0, 1))
    V = bytes_be(B, b, W)
    mk = lambda env: ["f_set_b32 " + benv(env, "b", 32)]
    res = cx.call(eng, st, F + "set_b32", [Ptr(kr), Ptr(kb)])
    cx.obligations("set_b32", eng, B, mk=mk)
    for s, rv in res:
        out = s.mem[kr]
        pc = list(s.pc)
        cx.valid("accepted exactly below p", B, B.b(rv) == z3.ULT(V, P), pc, mk=mk)
        pc.append(z3.ULT(V, P))
        cx.valid("value", B, bval(B, out) == V, pc, mk=mk)
        lim = z3.And([z3.ULE(B.z(x, 32), 0x3ffffff if i < 9 else 0x3fffff) for i, x in enumerate(out[0])])
        cx.valid("limbs are normalised", B, z3.And(lim, B.z(out[1], 32) == 1, B.b(out[2])), pc, mk=mk)


@lemma("F.b32", "all normalised elements", lambda cx: ["f_b32 " + gen.n_tok(v) for v in _b32vals(cx)])
def f_b32(cx):
    for nm in ("b32", "fill_b32"):
        B = cx.bv()
        eng = cx.engine(feas=None)
        st = execu.State()
        A = fen("a")
        k = eng.new_heap(st, A)
        ko = eng.new_heap(st, (0,) * 32)
        s, rv = cx.one(cx.call(eng, st, F + nm, [Ptr(k)] + ([Ptr(ko)] if nm != "b32" else [])))
        out = rv if nm == "b32" else s.mem[ko]
        mk = lambda env: ["f_b32 " + ntok(env, "a")]
        cx.obligations(nm, eng, B, [below_p(B, A)], mk)
        cx.valid(nm + ": big-endian value", B, bytes_be(B, out, W) == bval(B, A), [below_p(B, A)], mk)


@lemma("F.storage", "all normalised elements, all pairs of storage values",
       lambda cx: ["f_store " + gen.n_tok(v) for v in _b32vals(cx)] + ["f_load %064x" % v for v in _b32vals(cx)] + ["f_new %064x" % v for v in _b32vals(cx)] +
                  ["fs_cmov %d %064x %064x" % (f, v, cx.rng.getrandbits(256)) for v in _b32vals(cx) for f in (0, 1)])
def f_storage(cx):
    FSN = "libsecp256k1::curve::FieldStorage"
    B = cx.bv()

    def sval(s):
        v = 0
        for i, x in enumerate(s[0]):
            v = v + (z3.ZeroExt(W - 32, B.z(x, 32)) << (32 * i))
        return v
    names = ["<libsecp256k1::curve::Field as std::convert::Into<libsecp256k1::curve::FieldStorage>>::into",
             "<libsecp256k1::curve::FieldStorage as std::convert::From<libsecp256k1::curve::Field>>::from"]
    eng = cx.engine(feas=None)
    st = execu.State()
    A = fen("a")
    s, rv = cx.one(eng.run_fn(st, cx.P.fn(cx.find(*names)), [A]))
    mk = lambda env: ["f_store " + ntok(env, "a")]
    cx.obligations("store", eng, B, [below_p(B, A)], mk)
    cx.valid("storing keeps the value", B, sval(rv) == bval(B, A), [below_p(B, A)], mk)
    S = (tuple(tm.var("s%d" % i, 32) for i in range(8)),)
    names = ["<libsecp256k1::curve::Field as std::convert::From<libsecp256k1::curve::FieldStorage>>::from",
             "<libsecp256k1::curve::FieldStorage as std::convert::Into<libsecp256k1::curve::Field>>::into"]
    eng = cx.engine(feas=None)
    s, rv = cx.one(eng.run_fn(execu.State(), cx.P.fn(cx.find(*names)), [S]))
    mk = lambda env: ["f_load " + "".join("%08x" % env.get("s%d" % i, 0) for i in range(7, -1, -1))]
    cx.obligations("load", eng, B, [z3.ULT(sval(S), P)], mk)
    cx.valid("loading keeps the value", B, bval(B, rv) == sval(S), [z3.ULT(sval(S), P)], mk)
    lim = z3.And([z3.ULE(B.z(x, 32), 0x3ffffff if i < 9 else 0x3fffff) for i, x in enumerate(rv[0])])
    cx.valid("loaded limbs are normalised", B, lim, [z3.ULT(sval(S), P)], mk)
    eng = cx.engine(feas=None)
    l = [tm.var("w%d" % i, 32) for i in range(8)]
    s, rv = cx.one(cx.call(eng, execu.State(), F + "new", l))
    V = 0
    for x in l:
        V = (V << 32) | z3.ZeroExt(W - 32, B.z(x, 32))
    mk = lambda env: ["f_new " + "".join("%08x" % env.get("w%d" % i, 0) for i in range(8))]
    cx.valid("Field::new: value", B, bval(B, rv) == V, [z3.ULT(V, P)], mk)
    lim = z3.And([z3.ULE(B.z(x, 32), 0x3ffffff if i < 9 else 0x3fffff) for i, x in enumerate(rv[0])])
    cx.valid("Field::new: normalised limbs", B, lim, [z3.ULT(V, P)], mk)
    eng = cx.engine(feas=None)
    st = execu.State()
    S2 = (tuple(tm.var("t%d" % i, 32) for i in range(8)),)
    fl = tm.var("f", 1)
    ka, kb = eng.new_heap(st, S), eng.new_heap(st, S2)
    s, rv = cx.one(cx.call(eng, st, FSN + "::cmov", [Ptr(ka), Ptr(kb), fl]))
    out = s.mem[ka]
    mk = lambda env: ["fs_cmov %d %s %s" % (env.get("f", 0), "".join("%08x" % env.get("s%d" % i, 0) for i in range(7, -1, -1)),
                                            "".join("%08x" % env.get("t%d" % i, 0) for i in range(7, -1, -1)))]
    cx.valid("storage cmov", B, z3.And([B.z(out[0][i], 32) == z3.If(B.b(fl), B.z(S2[0][i], 32), B.z(S[0][i], 32)) for i in range(8)]), mk=mk)


# ------------------------------------------------------------------ powers
@lemma("F.inv", "every element (exponent arithmetic over the real addition chain; multiplication by contract F.mul, F.sqr)",
       lambda cx: ["f_inv" + v + " " + x for v in ("", "_var") for x in [gen.n_tok(v) for v in gen.fe_norm(cx.rng, 30)] + gen.fe_raw(cx.rng, 8, 12)],
       assumes=("Fermat: a^(p-2) is the inverse of a modulo the prime p, and 0 for 0",))
def f_inv(cx):
    for nm in ("inv", "inv_var"):
        T = PowTab(cx, "a", P)
        eng = cx.engine(T.tab)
        st = execu.State()
        k = eng.new_heap(st, T.base(8))
        s, rv = cx.one(cx.call(eng, st, F + nm, [Ptr(k)]))
        cx.no_panics(nm, eng)
        T.check_power(cx, nm + ": result is a^(p-2)", rv, P - 2, P - 1)
        T.pre_ok(cx)


@lemma("F.sqrt", "every element (exponent arithmetic over the real addition chain)",
       lambda cx: ["f_sqrt " + x for x in [gen.n_tok(v * v) for v in gen.fe_norm(cx.rng, 40)] + [gen.n_tok(v) for v in gen.fe_norm(cx.rng, 30)] + gen.fe_raw(cx.rng, 8, 12)] +
                  ["f_is_quad " + gen.n_tok(v) for v in gen.fe_norm(cx.rng, 30)],
       assumes=("p = 3 mod 4: a is a square iff (a^((p+1)/4))^2 = a",))
def f_sqrt(cx):
    for m in (1, 8):
        T = PowTab(cx, "a", P)
        eng = cx.engine(T.tab)
        st = execu.State()
        k = eng.new_heap(st, T.base(m))
        s, rv = cx.one(cx.call(eng, st, F + "sqrt", [Ptr(k)]))
        cx.no_panics("sqrt", eng)
        root, ok = rv
        T.check_root(cx, "sqrt", root, ok)
        T.pre_ok(cx)
    T = PowTab(cx, "a", P)
    eng = cx.engine(T.tab)
    st = execu.State()
    k = eng.new_heap(st, T.base(1))
    s, ok = cx.one(cx.call(eng, st, F + "is_quad_var", [Ptr(k)]))
    T.check_quad(cx, "is_quad_var", ok)
