"""Multiplications: recodings, tables and the evaluation loops, as real code over points that are
linear forms (gdom), with the group operations by their contracts (C09)."""
import math
import time
import z3
from . import terms as tm, mir, execu, gen, ref
from .terms import T
from .framework import lemma
from .mir import Ptr, E, Unsupported, UNDEF
from .execu import Abstract, Table, Outcomes
from .ref import P, N
from .fdom import FE, FS, var, const, pmul
from .gdom import GDom, AW, Form, TabArr, lconst, ladd, lscale, ZERO, tvars

G = "libsecp256k1::curve::"
J = G + "Jacobian::"
A = G + "Affine::"
ST = G + "Scalar"
ASSUME = ("group operations by contract (C09 lemmas, which cover y^2 = x^3 + 7 f^6 for every unit f), field operations by contract (C01-C04)",
          "the group has prime order n: n times a point is infinity, and a finite point times k is finite unless n divides k")
GX, GY = ref.G
ODD, SETT, GLOB = ("libsecp256k1::util::" + x for x in ("odd_multiples_table", "set_table_gej_var", "globalz_set_table_gej"))


def static(cx, suffix):
    for k, v in cx.P.allocs.items():
        if str(v.get("static", "")).endswith(suffix):
            return cx.P.alloc_value(("c", k, v["ty"])), v["ty"]
    raise Unsupported("no static " + suffix)


NUMS_X = int.from_bytes(b"The scalar for this x is unknown", "big")


def nums():
    """the point with x = "The scalar for this x is unknown" and even y, plus G: the base U"""
    y = ref.sqrt((NUMS_X**3 + 7) % P)
    if y & 1:
        y = P - y
    return (NUMS_X, y)


def world(cx, ground=True):
    D = GDom(cx)
    n0 = nums()
    D.finite |= {"P", "G", "U"}
    D.gpt = {"G": ref.G, "U": ref.add(n0, ref.G)}
    D.ground[ref.G] = {"G": 1}
    D.ground[n0] = {"U": 1, "G": -1}
    return D


def engine(cx, D, *tabs, **kw):
    eng = cx.engine(*tabs, D.gtab, D.tab, **kw)
    eng.hooks["femerge"] = lambda e, c, x, y: D.merge(e, c, x, y)
    return eng


def limbs(nm):
    return (tuple(tm.var("%s%d" % (nm, i), 32) for i in range(8)),)


def sval(B, s, w=256):
    r = B.z(s[0][7], 32)
    for i in range(6, -1, -1):
        r = z3.Concat(r, B.z(s[0][i], 32))
    return z3.ZeroExt(w - 256, r) if w > 256 else r


def form_of(cx, D, st, out, what):
    F, f, _ = D.jac(st, out, what)
    cx.true(what + ": the result is a point of the curve itself", f in (None, ()), detail=repr(f))
    return F


def same_int(cx, *pairs):
    """unsat: the linear expressions agree modulo n, whatever their atoms are"""
    def z(l):
        return z3.Sum([z3.IntVal(c) if x is None else c * z3.Int("o" + x if isinstance(x, str) else "t%d" % x.id) for x, c in l.items()] + [z3.IntVal(0)])
    if not isinstance(pairs[0], tuple):
        pairs = (pairs,)
    t = time.time()
    s = z3.Solver()
    q = []
    for i, (a, b) in enumerate(pairs):
        k = z3.Int("k%d" % i)
        d = ladd(a, b, -1)
        s.add(k == sum(c // N for c in d.values() if c % N == 0) if set(d) == {None} else k == 0)
        q.append(z(a) - z(b) != N * k)
    s.add(z3.Or(q))
    r = str(s.check())
    cx.extraq += 1
    cx.extrat += time.time() - t
    return r


def want_form(cx, D, st, name, F, want, cands=()):
    """coefficient-wise: F - want is zero modulo n (want: {base: lin})"""
    for b in sorted(set(F.c) | set(want)):
        d = ladd(F.c.get(b, {}), want.get(b, {}), -1)
        d = {x: c % N if isinstance(x, (str, type(None))) else c for x, c in d.items()}
        d = {x: c for x, c in d.items() if c}
        if not d:
            cx.result("%s: coefficient of %s" % (name, b), same_int(cx, F.c.get(b, {}), want.get(b, {})))
            continue
        g = math.gcd(0, *d.values())
        t = D.tobv({x: c // g for x, c in d.items()})
        r = "unknown"
        if t is not None:
            r = D.B.valid(D.B.z(t, AW) == 0, list(st.pc) + D.ax)[0]
        cx.result("%s: coefficient of %s" % (name, b), r, cands, detail=str({str(x)[:60]: c for x, c in list(d.items())[:6]}))


# ------------------------------------------------------------------ C14
def blinding(cx):
    v, _ = static(cx, "::ECMULT_GEN_CONTEXT")
    return next(sum(l << (32 * i) for i, l in enumerate(x[0])) for x in v if len(x) == 1)


def extremes(rng):
    """integers that are extreme in their bits, nibbles or words"""
    out = list(range(20)) + [N - 1 - k for k in range(20)]
    for j in range(0, 257, 4):
        out += [(1 << j) + e for e in (-1, 0, 1)] + [(1 << 256) - (1 << j)]
    for _ in range(40):
        m, ones = rng.getrandbits(64), rng.getrandbits(64)
        out.append(sum((15 if ones >> j & 1 else 0 if m >> j & 1 else rng.randrange(16)) << (4 * j) for j in range(64)))
    for w in range(8):
        out += [rng.getrandbits(256) & ~(0xffffffff << (32 * w)), rng.getrandbits(256) | (0xffffffff << (32 * w)), 0xffffffff << (32 * w), rng.getrandbits(32 * w + 1)]
    return [v for v in out if 0 <= v < N]


def bat_gen(cx):
    out = []
    try:
        blind = blinding(cx)
    except Exception:
        blind = 0
    for v in gen.scalars(cx.rng, 120):
        out.append("ecmult_gen %064x" % v)
    for v in extremes(cx.rng):      # of the scalar, and of the scalar with the blinding value added
        out += ["ecmult_gen %064x" % v, "ecmult_gen %064x" % ((v - blind) % N)]
    for j in range(64):
        for k in (1, 15, cx.rng.randrange(16)):
            for b in (0, blind):
                out.append("ecmult_gen %064x" % ((((k << (4 * j)) if (k << (4 * j)) < N else N - 1) - b) % N))
    return out


def prec_form(j, i):
    u = 1 << j if j < 63 else 1 - (1 << 63)
    return {"G": lconst(i << (4 * j)), "U": lconst(u)}


@lemma("M.gen", "every scalar below n; every window", bat_gen, ASSUME + ("entry (j, i) of the table is i 16^j G + 2^j U, the last row (1 - 2^63) U (lemma T.gen)",
                                                                   "scalar addition by contract C06"))
def m_gen(cx):
    D = world(cx)
    v, ty = static(cx, "::ECMULT_GEN_CONTEXT")
    blind = initial = None
    ctx = []
    for x in v:
        if len(x) == 64:
            ctx.append(tuple(tuple(D.stored(D.form(prec_form(j, i))) for i in range(16)) for j in range(64)))
        elif len(x) == 1:
            blind = sum(l << (32 * i) for i, l in enumerate(x[0]))
            ctx.append(x)
        else:
            initial = x
            ctx.append(x)
    D.ground[ref.mul((N - blind) % N, ref.G)] = {"G": -blind}
    sums = []
    t = Table()

    def add(eng, st, a, cal):
        x, y = (eng.load(st, q) if isinstance(q, Ptr) else q for q in a)
        s = limbs("w%d_" % len(sums))
        sums.append((s, x, y))
        for i in range(8):
            D.digits += [tm.zext(AW, tm.and_(32, tm.lshr(32, s[0][i], 4 * k), 15), 32) for k in range(8)]
        for d in D.digits[-64:]:
            D.atom(d, 15)
        if cal["name"].endswith("add_assign"):
            eng.store(st, a[0], s)
            return ()
        return s
    t.on("/^<&?%s as std::ops::Add(Assign)?(<&%s>)?>::add(_assign)?$" % (ST, ST))(add)
    eng = engine(cx, D, t)
    st = execu.State()
    gn = limbs("k")
    kc, kr, kg = eng.new_heap(st, tuple(ctx), ty), eng.new_heap(st, tuple(FE(D.unknown(), 8) for _ in range(3)) + (tm.var("junkf", 1),)), eng.new_heap(st, gn)
    B = D.B
    word = lambda env, nm: sum(env.get("%s%d" % (nm, i), 0) << (32 * i) for i in range(8)) % N
    mk = lambda env: ["ecmult_gen %064x" % word(env, "k"), "ecmult_gen %064x" % ((word(env, "w0_") - blind) % N)]
    for s, rv in cx.call(eng, st, G + "ECMultGenContext::ecmult_gen", [Ptr(kc), Ptr(kr), Ptr(kg)]):
        F = form_of(cx, D, s, s.mem[kr], "ecmult_gen")
        cx.true("one scalar addition: gn and the blinding value", len(sums) == 1, detail=repr(len(sums)))
        w, x, y = sums[0]
        cx.true("the sum is gn + blind", {x, y} == {gn, ctx[[i for i, q in enumerate(v) if len(q) == 1][0]]})
        # sum of 16^j digit_j = w as an identity of 256-bit integers; w = gn + blind mod n
        g = dict(F.c.get("G", {}))
        acc = z3.BitVecVal(0, 300)
        for d, c in list(g.items()):
            if isinstance(d, T):
                cx.true("digit coefficient %#x is 16^j" % c, 0 < c < 1 << 256)
                acc = acc + z3.ZeroExt(300 - AW, B.z(d, AW)) * z3.BitVecVal(c, 300)
                cx.valid("digit below 16", B, z3.ULT(B.z(d, AW), 16), list(s.pc))
                g.pop(d)
        cx.valid("the digits of the blinded scalar add up to it", B, acc == sval(B, w, 300), list(s.pc), mk)
        g["@w"] = 1
        g = ladd(ladd(g, {"@w": 1}, -1), {"@gn": 1, None: blind})
        want_form(cx, D, s, "ecmult_gen", Form(dict(F.c, G=g), F.inf), {"G": {"@gn": 1}})
    B2 = cx.bv()
    cx.obligations("ecmult_gen", eng, B2, [], mk)
    cx.true("the initial point is minus the blinding value times G", any(k == ref.mul((N - blind) % N, ref.G) for k in D.ground))
    D.pre_ok(cx)


# ------------------------------------------------------------------ C13
def bat_const(cx):
    out = []
    pts = [ref.G, gen.point(2), gen.point(3), gen.point(cx.rng.randrange(N)), ref.neg(ref.G), gen.point(N - 5)]
    for v in gen.scalars(cx.rng, 60) + extremes(cx.rng) + [(N + k) // 2 for k in range(-6, 7)]:
        out.append("ecmult_const %s %064x" % (gen.aff_tok(cx.rng.choice(pts), cx.rng, 1), v % N))
    for j in range(64):
        for k in (1, 15, 8, 7, cx.rng.randrange(16)):
            out.append("ecmult_const %s %064x" % (gen.aff_tok(cx.rng.choice(pts), cx.rng, 1), (k << (4 * j)) % N))
    return out


WNAF = "libsecp256k1_core::ecmult::ecmult_wnaf"


def whole(eng, st, p):
    """pointer to the array a slice covers"""
    v = eng.load(st, Ptr(p.a, p.p))
    if p.mode != 1 or p.off != 0 or p.meta != len(v):
        raise Unsupported("slice of a digit array: %r" % (p,))
    return Ptr(p.a, p.p), len(v)


@lemma("M.const", "every point but infinity (coordinates of magnitude <= 1 for y, <= 8 for x), every scalar", bat_const,
       ASSUME + ("the recoding by contract: 65 odd digits |d_i| <= 15 with sum of d_i 16^i = scalar + skew modulo n, skew 1 or 2 (lemma W.const)",))
def m_const(cx):
    D = world(cx)
    t = Table()
    dig = []

    @t.on(WNAF + "_const")
    def wc(eng, st, a, cal):
        dst, n = whole(eng, st, a[0])
        k = len(dig)
        ds = [tm.var("d%d_%d" % (k, i), 32) for i in range(n)]
        sk = tm.var("skew%d" % k, 32)
        dig.append((ds, sk, eng.load(st, a[1]), a[2]))
        for d in ds:
            z = D.B.z(d, 32)
            D.ax.append(z3.And(z <= 15, z >= -15, z3.Extract(0, 0, z) == 1))
            D.digit(d, 32, 15)
        z = D.B.z(sk, 32)
        D.ax.append(z3.Or(z == 1, z == 2))
        D.digit(sk, 32, 2)
        eng.store(st, dst, tuple(ds))
        return sk
    eng = engine(cx, D, t)
    st = execu.State()
    P1 = D.form({"P": lconst(1)})
    x, y, inf = D.affine(P1, 8)
    ctx = (TabArr(16384, None),)
    a = limbs("k")
    kc, kr, kp, ka = eng.new_heap(st, ctx), eng.new_heap(st, tuple(FE(D.unknown(), 8) for _ in range(3)) + (tm.var("junkf", 1),)), eng.new_heap(st, (x, y, 0)), eng.new_heap(st, a)
    mk = lambda env: bat_const(cx)
    for s, rv in cx.call(eng, st, G + "ECMultContext::ecmult_const", [Ptr(kc), Ptr(kr), Ptr(kp), Ptr(ka)]):
        F = form_of(cx, D, s, s.mem[kr], "ecmult_const")
        cx.true("one recoding of the scalar, of width 4", len(dig) == 1 and dig[0][2] == a and dig[0][3] == 4 and len(dig[0][0]) == 65)
        want = {}
        for i, d in enumerate(dig[0][0]):
            want = ladd(want, lscale({tm.sext(AW, d, 32): 1}, 16**i))
        want = ladd(want, {tm.sext(AW, dig[0][1], 32): -1})
        want_form(cx, D, s, "ecmult_const", F, {"P": want})
    B2 = cx.bv()
    cx.obligations("ecmult_const", eng, B2, D.ax, mk)
    D.pre_ok(cx)


# ------------------------------------------------------------------ recodings
def bat_wnaf_const(cx):
    g = gen.aff_tok(ref.G, cx.rng, 1)
    return ["ecmult_const %s %064x" % (g, v) for v in gen.scalars(cx.rng, 150) + list(range(40)) + [N - 1 - k for k in range(40)] + [(N + k) // 2 for k in range(-9, 10)]] + bat_const(cx)


@lemma("W.const", "every scalar below n, width 4", bat_wnaf_const, ("scalar negation, conditional negation and bit addition as real code",))
def w_const(cx):
    a = limbs("a")
    B = cx.bv()
    ax = [z3.ULT(sval(B, a), N)]
    t = Table()
    cut = []

    @t.on(G + "Scalar::shr_int")
    def shr(eng, st, a, cal):
        if not cut:
            s0 = eng.load(st, a[0])
            s1 = limbs("s")
            cut.append((s0, s1, list(st.pc)))
            r = B.valid(B.z(s0[0][0], 32) & 1 == 1, list(st.pc) + ax)[0]
            cx.result("the shifted scalar is odd", r)
            if r == "unsat":
                ax.append(B.z(s1[0][0], 32) & 1 == 1)
            eng.store(st, a[0], s1)
        return NotImplemented
    eng = cx.engine(t, feas=lambda pc: B.check(list(pc) + ax)[0])
    st = execu.State()
    ka, kw = eng.new_heap(st, a), eng.new_heap(st, tuple(tm.var("old%d" % i, 32) for i in range(65)))
    mk = lambda env: ["ecmult_const %s %s" % (gen.aff_tok(ref.G, cx.rng, 1), "".join("%08x" % env.get("a%d" % i, 0) for i in range(7, -1, -1)))]
    for s, sk in cx.call(eng, st, WNAF + "_const", [Ptr(kw, (), 1, 0, 65), Ptr(ka), 4]):
        cx.true("the scalar is shifted out on one path", len(cut) == 1)
        s0, s1, pc0 = cut[0]
        D = s.mem[kw]
        pc = list(s.pc) + ax
        gs = B.z(D[64], 32)
        cx.valid("the top digit is 1 or -1", B, z3.Or(gs == 1, gs == -1), pc, mk)
        z = lambda v: z3.ZeroExt(16, v)
        A, S, K = z(sval(B, a)), z(sval(B, s0)), z3.ZeroExt(240, B.z(sk, 32))
        cx.valid("skew is 1 or 2", B, z3.Or(B.z(sk, 32) == 1, B.z(sk, 32) == 2), pc, mk)
        cx.valid("the shifted scalar is congruent to +-(scalar + skew)", B, z3.If(gs == 1, z3.Or(S == A + K, S + N == A + K),
                                                                               z3.Or(S + A + K == N, S + A + K == 2 * N, S + A + K == 0)), pc, mk)
        W = sval(B, s1)
        nib = [z3.ZeroExt(28, z3.Extract(4 * k + 3, 4 * k, W)) for k in range(64)] + [z3.BitVecVal(0, 32)]
        ev = [z3.BitVecVal(0, 32)] + [z3.If(n & 1 == 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)) for n in nib[1:]] + [z3.BitVecVal(0, 32)]
        for k in range(65):
            d = B.z(D[k], 32)
            cx.valid("digit %d is odd and at most 15 in size" % k, B, z3.And(d & 1 == 1, d <= 15, d >= -15), pc, mk)
            cx.valid("digit %d is +-(nibble made odd)" % k, B, d == gs * (nib[k] + ev[k] - (16 * ev[k + 1] if k < 64 else 0)), pc, mk)
        # the sum telescopes: linear arithmetic over the nibbles and the carries
        sv = z3.Solver()
        n = z3.Ints(" ".join("n%d" % k for k in range(65)))
        e = z3.Ints(" ".join("e%d" % k for k in range(66)))
        sv.add(e[0] == 0, n[64] == 0, e[64] == 1, e[65] == 0)
        sv.add(z3.Sum([16**k * (n[k] + e[k] - (16 * e[k + 1] if k < 64 else 0)) for k in range(65)]) != z3.Sum([16**k * n[k] for k in range(65)]))
        cx.result("the digits add up to the shifted scalar", str(sv.check()))
        cx.extraq += 1
    cx.obligations("ecmult_wnaf_const", eng, B, ax, mk)


# ------------------------------------------------------------------ loops cut at their header
def loops(eng, fn):
    """{header block: blocks of the natural loop}"""
    r = getattr(eng, "_loops", None)
    if r is None:
        r = eng._loops = {}
    if fn.sym in r:
        return r[fn.sym]
    n = len(fn.blocks)
    succ = [eng.succs(t) if t != "Return" else [] for _, t, _ in fn.blocks]
    pred = [[] for _ in range(n)]
    for i, ss in enumerate(succ):
        for x in ss:
            pred[x].append(i)
    color = [0] * n
    back = []
    st = [(0, iter(succ[0]))]
    color[0] = 1
    while st:
        x, it = st[-1]
        for y in it:
            if color[y] == 1:
                back.append((x, y))
            elif color[y] == 0:
                color[y] = 1
                st.append((y, iter(succ[y])))
                break
        else:
            color[x] = 2
            st.pop()
    out = {}
    for t, h in back:
        body = out.setdefault(h, {h})
        w = [t]
        while w:
            x = w.pop()
            if x in body:
                continue
            body.add(x)
            w += pred[x]
    r[fn.sym] = out
    return out


def calls(eng, fn, blocks, names, leaves, seen=None):
    """do the blocks call one of the functions, directly or through functions that are not leaves"""
    seen = set() if seen is None else seen
    for b in blocks:
        t = fn.blocks[b][1]
        if not isinstance(t, dict) or "Call" not in t or not t["Call"]["callee"]:
            continue
        c = t["Call"]["callee"]
        if c["name"] in names:
            return True
        if c["name"] in leaves or c["sym"] in seen:
            continue
        seen.add(c["sym"])
        g = eng.prog.fn(c["sym"])
        if g is None or not g.raw.get("blocks") or "secp256k1" not in g.name:
            continue
        if g.blocks is None:
            eng.compile(g)
        if calls(eng, g, range(len(g.blocks)), names, leaves, seen):
            return True
    return False


class LoopCut:
    """stops at the header of the first loop for which want() holds, lets plan() replace the state
    by one that stands for every iteration, and ends the paths that come round again"""

    def __init__(self, eng, want, plan):
        self.eng, self.want, self.plan = eng, want, plan
        self.active = None
        self.done = {}
        self.skip = False
        self.back = []
        self.memo = {}
        eng.cut = self.hook

    def hook(self, eng, st, fn, b, blk):
        ls = self.memo.get(fn.sym)
        if ls is None:
            ls = self.memo[fn.sym] = {h: body for h, body in loops(eng, fn).items() if self.want(fn, body)}
        if blk not in ls:
            return st
        k = (b, blk)
        if k == self.active:
            if self.skip:
                self.skip = False
                return st
            self.back.append(st)
            return None
        if k in self.done:
            return None
        if self.active is not None or self.done:
            return st
        self.active, self.fn, self.frame, self.blk = k, fn, b, blk
        r = self.plan(self, st)
        self.active = None
        self.done[k] = True
        return r

    def iterate(self, st):
        """(states that come back to the header, states that leave the function)"""
        self.back = []
        self.skip = True
        ex = self.eng.region(st.fork(), self.fn, self.frame, self.blk, len(self.fn.blocks))
        b, self.back = self.back, []
        return b, ex


def changed(eng, st, st2, units):
    """leaves of the memory of st that differ in st2: [(kind, key, path)]; a whole value of a type
    in units is one leaf"""
    out = []

    def ty(key, path):
        try:
            return eng.place_type(key, path)
        except Exception:
            return None

    def walk(key, path, x, y):
        if x is y or x is UNDEF:
            return
        t = ty(key, path)
        n = eng.prog.types[t]["name"] if t is not None else ""
        for u in units:
            if n.endswith(u):
                if x != y:
                    out.append((u, key, path))
                return
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            for i, (p, q) in enumerate(zip(x, y)):
                walk(key, path + (i,), p, q)
            return
        if isinstance(x, E) and isinstance(y, E):
            if x.d != y.d or x.f != y.f:
                out.append(("enum", key, path))
            return
        if isinstance(x, (int, T)) and isinstance(y, (int, T)):
            if x != y:
                out.append(("int", key, path))
            return
        try:
            if x == y:
                return
        except Exception:
            pass
        out.append(("other", key, path))
    for k, x in st.mem.items():
        y = st2.mem.get(k, UNDEF)
        if y is not UNDEF:
            walk(k, (), x, y)
    return out


def leaf_width(eng, st, key, path):
    v = eng.load(st, Ptr(key, path))
    if isinstance(v, T):
        return v.w
    t = eng.place_type(key, path)
    w = eng.prog.bits(t) if t is not None else None
    if w is None:
        raise Unsupported("width of a loop variable %r %r = %r of type %r" % (key, path, v, eng.prog.types[t]["name"] if t is not None else None))
    return w


# ------------------------------------------------------------------ the variable-time recoding
def bat_var(cx):
    out = []
    pts = [ref.G, gen.point(2), gen.point(3), gen.point(cx.rng.randrange(N)), ref.neg(ref.G), gen.point(N - 5)]
    sc = gen.scalars(cx.rng, 60)
    tok = lambda: gen.jac_tok(cx.rng.choice(pts), cx.rng.choice([1, 2, P - 1, cx.rng.randrange(1, P)]), cx.rng)
    edge = list(range(34)) + [N - 1 - k for k in range(34)] + [2**255 + k for k in range(-3, 4)] + [N - 2**255 + k for k in range(-3, 4)]
    edge += [(1 << k) + d for k in range(3, 256, 5) for d in (-1, 0, 1)] + [(0xffff << k) % N for k in range(0, 241, 8)] + [(0x1f << k) % N for k in range(0, 252, 3)]
    for v in sc + edge + extremes(cx.rng):
        v %= N
        out.append("ecmult %s %064x %064x" % (tok(), v, cx.rng.choice(sc)))
        out.append("ecmult %s %064x %064x" % (tok(), cx.rng.choice(sc + [0]), v))
    for k in (1, 2, 3, N - 5):
        for v in sc[:20]:
            out.append("ecmult %s %064x %064x" % (gen.jac_tok(gen.point(k), 1, cx.rng), v, -v * k % N))
            out.append("ecmult %s %064x %064x" % (gen.jac_tok(gen.point(k), 1, cx.rng), v, v * k % N))
    return out


def wnaf_lemma(w, part, parts):
    where = "each of the 256 positions" if parts == 1 else "the positions congruent to %d modulo %d" % (part, parts)

    @lemma("W.var.%d" % w + (".%d" % part if parts > 1 else ""), "every scalar below n, window %d, 256 digits, all zero before; one iteration from an arbitrary state at %s" % (w, where), bat_var, timeout=300)
    def f(cx):
        a = limbs("a")
        B = cx.bv()
        ax = [z3.ULT(sval(B, a), N)]
        A = z3.ZeroExt(64, sval(B, a))
        mk = lambda env: ["ecmult %s %s %s" % (gen.jac_tok(ref.G, 1, cx.rng), *(("".join("%08x" % env.get("a%d" % i, 0) for i in range(7, -1, -1)), "0" * 64) if w == 5 else
                                                                   ("0" * 64, "".join("%08x" % env.get("a%d" % i, 0) for i in range(7, -1, -1)))))]
        eng = cx.engine(feas=lambda pc: B.check(list(pc) + ax)[0])
        st = execu.State()
        ka, kw = eng.new_heap(st, a), eng.new_heap(st, (0,) * 256)
        names = {G + "Scalar::bits", G + "Scalar::bits_var"}
        info = {}

        def plan(cut, st):
            ob = len(eng.obligations), len(eng.panics)
            # the scalar that is recoded and its sign: the pair for which the value is +-a
            vals = []
            for k, v in st.mem.items():
                if isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], tuple) and len(v[0]) == 8 and k != ka and v not in vals and UNDEF not in v[0]:
                    vals.append(v)
            sgs = []
            for v in st.mem.values():
                if isinstance(v, T) and v.w == 32 and v not in sgs:
                    sgs.append(v)
            s1 = limbs("s")
            pc = list(st.pc) + ax
            hit = []
            for s0 in vals:
                S0 = z3.ZeroExt(64, sval(B, s0))
                for v in sgs:
                    z = B.z(v, 32)
                    if B.valid(z3.Or(z3.And(z == 1, S0 == A), z3.And(z == -1, S0 + A == N)), pc)[0] == "unsat":
                        hit.append((s0, z))
            if len(hit) != 1:
                raise Unsupported("%d pairs of recoded value and sign" % len(hit))
            s0, sg = hit[0]
            cand = [k for k, v in st.mem.items() if k != ka and v == s0]
            cx.result("the recoded value is +-the scalar with the recorded sign", "unsat")
            cx.valid("the recoded value is below 2^255", B, z3.ULT(sval(B, s0), 1 << 255), pc, mk)
            st = st.fork()
            for k in cand:
                st.mem[k] = s1
            S = sval(B, s1)
            ax.append(z3.ULT(S, 1 << 255))
            # roles of the loop variables
            ch = set()
            h = st
            for _ in range(4):
                bk, ex = cut.iterate(h)
                new = {c for s in bk for c in changed(eng, h, s, ()) if c[0] == "int"} - ch
                if not new:
                    break
                ch |= new
                h = st.fork()
                for _, k, p in ch:
                    if k != kw:
                        eng.store(h, Ptr(k, p), tm.var("h%s_%s" % (k, "_".join(map(str, p))), leaf_width(eng, st, k, p), 0, 255))
            cells = {(k, p): leaf_width(eng, st, k, p) for _, k, p in ch if k != kw}
            pos = [c for c, x in cells.items() if x == 64]
            car = [c for c, x in cells.items() if x == 32 and eng.load(st, Ptr(*c)) == 0]
            last = [c for c, x in cells.items() if x == 32 and eng.load(st, Ptr(*c)) == 0xffffffff]
            if len(pos) != 1 or len(car) != 1 or len(last) != 1 or len(cells) != 3:
                raise Unsupported("loop variables of the recoding not recognised: %r" % ({c: (x, eng.load(st, Ptr(*c))) for c, x in cells.items()},))
            pos, car, last = Ptr(*pos[0]), Ptr(*car[0]), Ptr(*last[0])
            del eng.obligations[ob[0]:]
            del eng.panics[ob[1]:]
            cx.true("the loop starts at position 0 without carry and digits", eng.load(st, pos) == 0)
            cx.true("every digit is zero first", all(x == 0 for x in st.mem[kw]), bat_var(cx)[:40])
            cv, lv = tm.var("carry", 32, 0, 1), tm.var("last", 32)
            eng.merge = False

            def at(b):
                h = st.fork()
                eng.store(h, pos, b)
                eng.store(h, car, cv)
                eng.store(h, last, lv)
                h.mem[kw] = tuple(tm.var("v%d" % j, 32) if j < b else 0 for j in range(256))
                return h
            L0 = B.z(lv, 32)
            seen = set()
            for b in range(part, 256, parts):
                inv = [L0 >= -1, L0 < b] + ax
                h = at(b)
                n0 = len(eng.obligations)
                bk, ex = cut.iterate(h)
                nm = "position %d" % b
                for pc, cond, kind, where, _ in eng.obligations[n0:]:
                    if not (isinstance(cond, int) and cond):
                        cx.valid("%s: no %s at %s" % (nm, kind, where), B, cond, inv + list(pc), mk)
                del eng.obligations[n0:]
                for s in ex:
                    cx.result(nm + ": does not leave the loop", B.check(inv + list(s.pc))[0])
                cx.true(nm + ": goes on", bool(bk))
                for s in bk:
                    pc = inv + list(s.pc)
                    b2, c2, l2, arr = eng.load(s, pos), eng.load(s, car), eng.load(s, last), s.mem[kw]
                    if not isinstance(b2, int) or not b < b2 <= 256:
                        cx.result(nm + ": advances", "unknown", detail=repr(b2))
                        continue
                    seen.add(b2)
                    diff = [j for j in range(256) if arr[j] is not h.mem[kw][j]]
                    cx.true(nm + ": only the digit at the position is written", all(j == b for j in diff), detail=repr(diff))
                    d = B.z(arr[b], 32)
                    c0, c1, l1 = B.z(cv, 32), B.z(c2, 32), B.z(l2, 32)
                    q = [z3.Or(c1 == 0, c1 == 1), z3.Or(d == 0, z3.And(d & 1 == 1, d < 1 << (w - 1), d > -(1 << (w - 1)))),
                         l1 >= L0, l1 < b2, z3.Or(d == 0, l1 >= b)]
                    if b2 == 256:
                        q.append(c1 == 0)
                    # (S mod 2^b2 - c1 2^b2) - (S mod 2^b - c0 2^b) = sg d 2^b, divided by 2^b
                    mid = z3.ZeroExt(48 - (b2 - b), z3.Extract(b2 - 1, b, S))
                    q.append(mid - (z3.SignExt(16, c1) << (b2 - b)) + z3.SignExt(16, c0) == z3.SignExt(16, sg * d))
                    cx.valid(nm + ": digit, carry and sum", B, z3.And(q), pc, mk)
            if part == parts - 1:
                cx.true("the loop ends at position 256", max(seen) == 256)
            eng.merge = True
            h = at(256)
            eng.store(h, car, 0)
            ax.extend([L0 >= -1, L0 < 256])
            info["ok"] = lv
            return h
        LoopCut(eng, lambda fn, body: calls(eng, fn, body, names, names), plan)
        for s, rv in cx.call(eng, st, WNAF, [Ptr(kw, (), 1, 0, 256), Ptr(ka), w]):
            if "ok" not in info:
                raise Unsupported("no loop found")
            cx.valid("the returned length is one more than the last digit's position", B, B.z(rv, 32) == B.z(info["ok"], 32) + 1, list(s.pc) + ax)
            cx.true("the digits are returned as they are", all(x is tm.var("v%d" % j, 32) for j, x in enumerate(s.mem[kw])))
        cx.obligations("ecmult_wnaf", eng, B, ax, mk)
    return f


wnaf_lemma(5, 0, 1)
for _k in range(6):
    wnaf_lemma(16, _k, 6)


# ------------------------------------------------------------------ C12: the evaluation loop
class DigArr(Abstract):
    """the digits of one recoding: 0 or odd, zero from index len on"""

    def __init__(self, D, k, w, ln, log):
        self.D, self.k, self.w, self.ln, self.log = D, k, w, ln, log
        self.memo = {}

    def __len__(self):
        return 256

    def select(self, eng, i):
        key = i if isinstance(i, int) else i.id
        d = self.memo.get(key)
        if d is None:
            d = tm.var("dig%d_%d" % (self.k, len(self.memo)), 32)
            self.memo[key] = d
            D, m = self.D, (1 << (self.w - 1)) - 1
            z, ix = D.B.z(d, 32), D.B.z(i, 64)
            D.ax.append(z3.Or(z == 0, z3.And(z & 1 == 1, z <= m, z >= -m)))
            D.ax.append(z3.Implies(z3.UGE(ix, z3.ZeroExt(32, D.B.z(self.ln, 32))), z == 0))
            D.digit(d, 32, m)
            D.keep.append(i)
        self.log.append((self, i, d))
        return d

    field = select


@lemma("M.var", "every finite point (coordinates of magnitude <= 8), every two scalars below n; one iteration from an arbitrary state of the loop", bat_var,
       ASSUME + ("the recoding by contract: digits 0 or odd with |d_i| < 2^(w-1), zero from the returned length (at most 256) on, sum of d_i 2^i = the scalar modulo n (lemmas W.var.5, W.var.16)",
                 "entry i of the static table is (2i + 1) G (lemma T.pre)"), timeout=300)
def m_var(cx):
    D = world(cx)
    B = D.B
    t = Table()
    dig, sel = [], []

    @t.on(WNAF)
    def wv(eng, st, a, cal):
        dst, n = whole(eng, st, a[0])
        if n != 256 or any(x != 0 for x in eng.load(st, dst)):
            raise Unsupported("recoding into %d digits that are not all zero" % n)
        k = len(dig)
        ln = tm.var("len%d" % k, 32, 0, 256)
        w = eng.load(st, a[2]) if isinstance(a[2], Ptr) else a[2]
        arr = DigArr(D, k, w, ln, sel)
        s = eng.load(st, a[1])
        D.pre(w in (5, 16), "recoding of width %r" % (w,))
        dig.append((arr, s))
        eng.store(st, dst, arr)
        return ln
    eng = engine(cx, D, t, feas=lambda pc: B.check(list(pc) + D.ax)[0])
    st = execu.State()
    p = D.point(D.form({"P": lconst(1)}), ())
    tab = TabArr(16384, None)

    def at(i):
        if isinstance(i, int):
            return D.stored(D.form({"G": lconst(2 * i + 1)}))
        x = tm.zext(AW, i, 64)
        return D.stored(D.form({"G": ladd(lscale(D.atom(x, 16383), 2), lconst(1))}, 0))
    tab.at = at
    na, ng = limbs("na"), limbs("ng")
    jt = next(i for i, x in cx.P.types.items() if x["name"] == G + "Jacobian")
    kc, kr, kp, ka, kg = eng.new_heap(st, (tab,)), eng.new_heap(st, tuple(FE(D.unknown(), 8) for _ in range(3)) + (tm.var("junkf", 1),), jt), eng.new_heap(st, p, jt), \
        eng.new_heap(st, na), eng.new_heap(st, ng)
    tok = lambda nm, env: "".join("%08x" % env.get(nm + str(i), 0) for i in range(7, -1, -1))
    mk = lambda env: bat_var(cx)
    names = {J + "double_var", J + "double_var_in_place"}
    leaves = set(D.gtab.exact) | {WNAF}
    info = {}

    def pts(st, ch):
        out = []
        for kind, k, path in ch:
            if kind == "Jacobian":
                out.append((k, path))
        return out

    def plan(cut, st):
        ob, npn, npre = len(eng.obligations), len(eng.panics), len(D.bad)
        units = ("Jacobian", "Affine")
        ch, h, f = set(), st, None
        P0 = D.form({"P": {"@A": 1}, "G": {"@B": 1}})

        def havoc(ch, f):
            h = st.fork()
            js = []
            for kind, k, p in sorted(ch, key=str):
                if kind == "int":
                    w = leaf_width(eng, st, k, p)
                    eng.store(h, Ptr(k, p), tm.var("h%s_%s" % (k, "_".join(map(str, p))), w))
                elif kind == "Affine":
                    eng.store(h, Ptr(k, p), tuple(FE(D.unknown(), 8) for _ in range(2)) + (tm.var("ja%s" % (k,), 1),))
                elif kind == "Jacobian":
                    js.append((k, p))
                else:
                    raise Unsupported("the loop changes %s %r %r" % (kind, k, p))
            if len(js) > 1:
                raise Unsupported("the loop changes %d points" % len(js))
            for k, p in js:
                eng.store(h, Ptr(k, p), D.point(P0, f))
            return h, js
        eng.merge = False
        for _ in range(5):
            bk, ex = cut.iterate(h)
            new = {c for s in bk for c in changed(eng, h, s, units)} - ch
            for s in bk:
                for k, p in pts(s, new):
                    g = D.jac(s, eng.load(s, Ptr(k, p)), "the accumulator")[1]
                    if g is not None:
                        f = g
            if not new:
                break
            ch |= new
            h, js = havoc(ch, f)
        else:
            raise Unsupported("the loop variables do not settle")
        del sel[:]
        del eng.obligations[ob:]
        del eng.panics[npn:]
        del D.bad[npre:]
        if len(js) != 1:
            raise Unsupported("no accumulator")
        acc = Ptr(*js[0])
        hv = {}
        for kind, k, p in ch:
            if kind == "int":
                hv[eng.load(h, Ptr(k, p))] = Ptr(k, p)
        bk, ex = cut.iterate(h)
        ix = {i if isinstance(i, int) else i.id: i for _, i, _ in sel}
        if len(ix) != 1 or not sel:
            raise Unsupported("digits at %d positions in one iteration" % len(ix))
        (pos,) = ix.values()
        if not isinstance(pos, T):
            raise Unsupported("the position does not depend on the loop variables")
        if any(v not in hv for v in tvars(pos)):
            raise Unsupported("the position depends on more than the loop variables")
        digs = {a.k: d for a, _, d in sel}

        def posof(s):
            return tm.subst(pos, {v.id: eng.load(s, hv[v]) for v in tvars(pos)})
        z64 = lambda t: B.z(t, 64) if isinstance(t, T) else z3.BitVecVal(t, 64)
        lens = [z3.ZeroExt(32, B.z(a.ln, 32)) for a, _ in dig]
        # entry
        pe = z64(posof(st))
        pc = list(st.pc) + D.ax
        cx.true("two recodings", len(dig) == 2)
        r0 = eng.load(st, acc)
        cx.true("the accumulator starts at infinity", r0[3] == 1, bat_var(cx), detail=repr(r0[3]))
        cx.valid("the loop starts at or above the highest digit, below 256", B, z3.And(pe >= -1, pe <= 255, *[pe >= l - 1 for l in lens]), pc, mk)
        # step
        pz = z64(pos)
        inv = [pz >= -1, pz <= 255]
        D.ax.extend(inv)
        eng.obligations[ob:], mine = [], eng.obligations[ob:]
        for pc, cond, kind, where, _ in mine:
            if not (isinstance(cond, int) and cond):
                cx.valid("iteration: no %s at %s" % (kind, where), B, cond, list(pc) + D.ax, mk)
        cx.true("iteration comes round again", bool(bk))
        live = 0
        for n, s in enumerate(bk):
            pc = list(s.pc) + D.ax
            nm = "iteration, path %d" % n
            if B.check(pc)[0] == "unsat":
                continue
            live += 1
            cx.valid(nm + ": the position goes down by one", B, z64(posof(s)) == pz - 1, pc, mk)
            cx.valid(nm + ": from a position of a digit", B, pz >= 0, pc, mk)
            F, g, _ = D.jac(s, eng.load(s, acc), nm)
            cx.true(nm + ": same denominator", g == f, detail="%r / %r" % (g, f))
            want = {"P": {"@A": 2}, "G": {"@B": 2}}
            for a, sc in dig:
                b = "P" if sc == na else "G" if sc == ng else None
                if b is None:
                    raise Unsupported("recoding of an unknown scalar")
                d = digs.get(a.k)
                if d is None:
                    cx.result(nm + ": digit of recoding %d" % a.k, "sat", bat_var(cx), detail="not read")
                    continue
                want[b] = ladd(want[b], {tm.sext(AW, d, 32): 1})
            want_form(cx, D, s, nm, F, want, bat_var(cx))
        cx.true("some iteration is possible", live > 0)
        for s in ex:
            cx.valid("the loop ends below position 0", B, pz == -1, list(s.pc) + D.ax, mk)
        del eng.obligations[ob:]
        eng.merge = True
        info["f"] = f
        return h
    LoopCut(eng, lambda fn, body: calls(eng, fn, body, names, leaves), plan)
    for s, rv in cx.call(eng, st, G + "ECMultContext::ecmult", [Ptr(kc), Ptr(kr), Ptr(kp), Ptr(ka), Ptr(kg)]):
        if "f" not in info:
            raise Unsupported("no loop found")
        cx.true("the scalars are recoded with the two widths", sorted((a.w, sc == na) for a, sc in dig) == [(5, True), (16, False)], bat_var(cx), detail=repr([(a.w, sc == na, sc == ng) for a, sc in dig]))
        F = form_of(cx, D, s, s.mem[kr], "ecmult")
        want_form(cx, D, s, "ecmult", F, {"P": {"@A": 1}, "G": {"@B": 1}}, bat_var(cx))
    B2 = cx.bv()
    cx.obligations("ecmult", eng, B2, D.ax, mk)
    D.pre_ok(cx)


# ------------------------------------------------------------------ C11: tables
class Chords:
    """facts about constant points, decided by the solver: c = a + b as a chord or a tangent"""

    def __init__(self, cx):
        self.cx, self.n, self.bad = cx, 0, []
        self.buf = []

    def add(self, what, cands, *eqs, ne=()):
        """eqs: integer expressions that must be 0 modulo p, ne: that must not be; what and cands
        name the violation"""
        self.buf.append((what, cands, eqs, ne))

    def on_curve(self, what, c, cands):
        V = z3.IntVal
        self.add(what, cands, V(c[1]) * V(c[1]) - V(c[0]) * V(c[0]) * V(c[0]) - 7)

    def sum(self, what, a, b, c, cands):
        """c is on the curve, not +-a, not +-b, and a, b, -c are on one line"""
        V = z3.IntVal
        self.on_curve(what, c, cands)
        self.add(what, cands, (V(c[0]) - a[0]) * (V(b[1]) - a[1]) + (V(c[1]) + a[1]) * (V(b[0]) - a[0]), ne=(V(b[0]) - a[0], V(c[0]) - a[0], V(c[0]) - b[0]))

    def double(self, what, a, c, cands):
        """-c is on the tangent at a: 2 ya (-yc - ya) = 3 xa^2 (xc - xa), c not +-a"""
        V = z3.IntVal
        self.on_curve(what, c, cands)
        self.add(what, cands, 2 * V(a[1]) * (-V(c[1]) - a[1]) - 3 * V(a[0]) * V(a[0]) * (V(c[0]) - a[0]), ne=(V(c[0]) - a[0], V(a[1])))

    def done(self, name):
        """one query for all the facts, then, if there is a violation, one for each"""
        def viol(eqs, ne):
            return z3.Or([e % P != 0 for e in eqs] + [e % P == 0 for e in ne])
        bad = []
        for i in range(0, len(self.buf), 512):
            part = self.buf[i:i + 512]
            s = z3.Solver()
            t = time.time()
            s.add(z3.Or([viol(eqs, ne) for _, _, eqs, ne in part]))
            r = str(s.check())
            self.cx.extraq += 1
            self.cx.extrat += time.time() - t
            if r == "unsat":
                continue
            for what, cands, eqs, ne in part:
                s = z3.Solver()
                s.add(viol(eqs, ne))
                self.cx.extraq += 1
                if str(s.check()) != "unsat":
                    bad.append((what, cands))
        self.cx.result("%s: %d facts" % (name, len(self.buf)), "sat" if bad else "unsat", [c for _, cs in bad[:8] for c in cs] + ["boxed_g 0", "boxed_gen 0"] if bad else (), detail="; ".join(w for w, _ in bad[:4]))
        self.buf = []


def stpt(v):
    return tuple(sum(l << (32 * i) for i, l in enumerate(q[0])) for q in v)


def canonical(cx, name, pts):
    V = z3.IntVal
    s = z3.Solver()
    s.add(z3.Or([z3.Or(V(q) < 0, V(q) >= P) for c in pts for q in c]))
    cx.result(name + ": coordinates below p", str(s.check()))
    cx.extraq += 1


def bat_pre(cx):
    return ["table_g %d" % i for i in list(range(0, 64)) + [cx.rng.randrange(16384) for _ in range(200)] + list(range(16320, 16384))]


@lemma("T.pre", "all 16384 entries of the static table", bat_pre, ("the group law of the curve",))
def t_pre(cx):
    """entry 0 is G and entry i + 1 is entry i + 2G, as chords with 2G the tangent sum"""
    v, ty = static(cx, "::ECMULT_CONTEXT")
    tab = next((x for x in v if len(x) == 16384), None)
    cx.true("the table has 16384 entries", tab is not None, detail=str([len(x) for x in v]))
    pts = [stpt(x) for x in tab]
    canonical(cx, "static table", pts)
    c = Chords(cx)
    g2 = ref.add(ref.G, ref.G)
    c.double("2G", ref.G, g2, ["table_g 1"])
    V = z3.IntVal
    c.add("entry 0 is G", ["table_g 0"], V(pts[0][0]) - GX, V(pts[0][1]) - GY)
    prev = pts[0]
    for i in range(1, len(pts)):
        c.sum("entry %d" % i, prev, g2, pts[i], ["table_g %d" % i])
        prev = pts[i]
    c.done("static verification table")


def bat_tgen(cx):
    return ["table_gen %d %d" % (j, i) for j in range(64) for i in range(16)] + bat_gen(cx)


@lemma("T.gen", "all 1024 entries of the static table, the blinding value and the initial point", bat_tgen, ("the group law of the curve",))
def t_gen(cx):
    """entry (j, i) is i 16^j G + 2^j U, the last row (1 - 2^63) U, U = G + the point with
    x = "The scalar for this x is unknown" and even y; the initial point is minus blind times G"""
    v, ty = static(cx, "::ECMULT_GEN_CONTEXT")
    tab = next(x for x in v if len(x) == 64)
    T0 = [[stpt(x) for x in row] for row in tab]
    cx.true("64 rows of 16 entries", len(T0) == 64 and all(len(r) == 16 for r in T0))
    canonical(cx, "static generation table", [c for r in T0 for c in r])
    c = Chords(cx)
    V = z3.IntVal
    n0 = nums()
    e = lambda j, i: ["table_gen %d %d" % (j, i)]
    c.add("the x of the nothing-up-my-sleeve point", [], V(n0[0]) - NUMS_X)
    c.on_curve("the nothing-up-my-sleeve point", n0, [])
    cx.true("its y is even", n0[1] % 2 == 0)
    U = T0[0][0]
    c.sum("U", n0, ref.G, U, e(0, 0))
    base, off = ref.G, U
    for j in range(64):
        row = T0[j]
        if 0 < j < 63:
            c.double("row %d: offset" % j, off, row[0], e(j, 0))
            off = row[0]
        elif j == 63:
            d = ref.add(off, off)           # 2^63 U
            c.double("2^63 U", off, d, [])
            c.sum("row 63: offset", U, ref.neg(d), row[0], e(63, 0))
        for i in range(1, 16):
            c.sum("row %d entry %d" % (j, i), row[i - 1], base, row[i], e(j, i))
        for _ in range(4):
            nb = ref.add(base, base)
            c.double("16^%d G" % j, base, nb, [])
            base = nb
    cx.true("the offsets cancel", sum(1 << j for j in range(63)) + 1 - (1 << 63) == 0)
    blind = next(sum(l << (32 * i) for i, l in enumerate(x[0])) for x in v if len(x) == 1)
    ini = next(x for x in v if len(x) == 4)
    acc = None
    ops = ["ecmult_gen %064x" % k for k in (1, 2, N - 1, 0x1234567)]
    for j in range(64):
        q = T0[j][blind >> (4 * j) & 15]
        if acc is None:
            acc = q
        else:
            s = ref.add(acc, q)
            if s is None:
                cx.result("blinding value: partial sum is infinity", "unknown")
                return
            c.sum("blind * G: partial sum %d" % j, acc, q, s, ops)
            acc = s
    x, y, z = (sum(l << (26 * i) for i, l in enumerate(q[0])) for q in ini[:3])
    c.add("the initial point is -blind * G", ops, V(x) - V(acc[0]) * V(z) * V(z), V(y) + V(acc[1]) * V(z) * V(z) * V(z), ne=(V(z),))
    cx.true("the initial point is finite", ini[3] == 0, ops)
    c.done("static generation table")


def bat_run(cx):
    out = []
    for n in list(range(1, 10)) + [16]:
        for k in (1, 2, 3, N - 1, cx.rng.randrange(N), cx.rng.randrange(N)):
            for z in (1, 2, P - 1, cx.rng.randrange(1, P)):
                t = gen.jac_tok(gen.point(k), z, cx.rng)
                out.append("set_table %d %s" % (n, t))
                out.append("globalz_table %d %s" % (n, t))
    return out


@lemma("T.run", "every finite point (coordinates of magnitude <= 8), tables of 1 to 8 entries (the size the multiplications use) and 16", bat_run, ASSUME)
def t_run(cx):
    jt = next(i for i, x in cx.P.types.items() if x["name"] == G + "Jacobian")
    cmds = bat_run(cx)
    for n in list(range(1, 9)) + [16]:
        D = world(cx)
        eng = engine(cx, D)
        st = execu.State()
        kp = eng.new_heap(st, D.point(D.form({"P": lconst(1)}), ()), jt)
        junk = lambda k, fl=0: tuple(FE(D.unknown(), 8) for _ in range(k)) + (fl,)
        kj = eng.new_heap(st, tuple(junk(3) for _ in range(n)))
        kz = eng.new_heap(st, tuple(FE(D.unknown(), 8) for _ in range(n)))
        ka, kb, kg = eng.new_heap(st, tuple(junk(2) for _ in range(n))), eng.new_heap(st, tuple(junk(2) for _ in range(n))), eng.new_heap(st, FE(D.unknown(), 8))
        sl = lambda k: Ptr(k, (), 1, 0, n)
        name = "%d entries" % n
        for s, _ in cx.call(eng, st, ODD, [sl(kj), sl(kz), Ptr(kp)]):
            for s1, _ in cx.call(eng, s.fork(), SETT, [sl(ka), sl(kj), sl(kz)]):
                for i in range(n):
                    F, f = D.aff(s1, s1.mem[ka][i], "%s: affine table, entry %d" % (name, i))
                    cx.true("%s: affine table, entry %d is an affine point" % (name, i), f in (None, ()), cmds, detail=repr(f))
                    want_form(cx, D, s1, "%s: affine table, entry %d" % (name, i), F, {"P": lconst(2 * i + 1)}, cmds)
            for s2, _ in cx.call(eng, s.fork(), GLOB, [sl(kb), Ptr(kg), sl(kj), sl(kz)]):
                gz = D.parse(D.lift(s2.mem[kg]).p)
                cx.true(name + ": the common denominator is a unit", gz is not None and gz[0] == "U" and gz[3] == 1, cmds)
                for i in range(n):
                    F, f = D.aff(s2, s2.mem[kb][i], "%s: entry %d over a common denominator" % (name, i))
                    cx.true("%s: entry %d is over the common denominator" % (name, i), f is not None and gz is not None and f == tuple(gz[2]), cmds, detail="%r %r" % (f, gz))
                    want_form(cx, D, s2, "%s: entry %d over a common denominator" % (name, i), F, {"P": lconst(2 * i + 1)}, cmds)
        cx.obligations(name, eng, cx.bv(), [], lambda env: cmds)
        D.pre_ok(cx)


@lemma("T.boxed", "the generation table built at run time: all 1024 entries", lambda cx: ["boxed_gen 0"], ASSUME, timeout=300)
def t_boxed(cx):
    D = world(cx)
    eng = engine(cx, D)
    st = execu.State()
    for s, rv in cx.call(eng, st, G + "ECMultGenContext::new_boxed", []):
        v = eng.load(s, rv[0][0][0])
        tab = next(x for x in v if isinstance(x, tuple) and len(x) == 64)
        pairs = []
        for j in range(64):
            for i in range(16):
                x, y = tab[j][i]
                F, f = D.aff(s, (FE(D.fsp(x), 1, 1), FE(D.fsp(y), 1, 1), 0), "entry %d %d" % (j, i))
                w = prec_form(j, i)
                cx.true("entry %d %d is an affine point" % (j, i), f == (), ["boxed_gen 0"], detail=repr(F))
                pairs += [(F.c.get(b, {}), w.get(b, {})) for b in set(F.c) | set(w)]
        cx.result("every entry", same_int(cx, *pairs), ["boxed_gen 0"])
    cx.obligations("new_boxed", eng, cx.bv(), [], lambda env: ["boxed_gen 0"])
    D.pre_ok(cx)


@lemma("T.boxed_g", "the verification table built at run time: all 16384 entries", lambda cx: ["boxed_g 0"], ASSUME, timeout=800)
def t_boxed_g(cx):
    D = world(cx)
    D.gpt = {}          # odd multiples 1 .. 32767 of G are finite: the order is n
    D.finite.add("G")
    eng = engine(cx, D)
    st = execu.State()
    for s, rv in cx.call(eng, st, G + "ECMultContext::new_boxed", []):
        v = eng.load(s, rv[0][0][0])
        tab = next(x for x in v if isinstance(x, tuple) and len(x) == 16384)
        bad, pairs = [], []
        for i in range(16384):
            x, y = tab[i]
            F, f = D.aff(s, (FE(D.fsp(x), 1, 1), FE(D.fsp(y), 1, 1), 0), "entry %d" % i)
            if f != () or set(F.c) != {"G"}:
                bad.append((i, F))
            else:
                pairs.append((F.c["G"], lconst(2 * i + 1)))
        cx.true("every entry is an affine multiple of G", not bad, ["boxed_g 0"], detail=repr(bad[:3]))
        for i in range(0, len(pairs), 512):
            cx.result("entries from %d" % i, same_int(cx, *pairs[i:i + 512]), ["boxed_g 0"])
    cx.obligations("new_boxed", eng, cx.bv(), [], lambda env: ["boxed_g 0"])
    D.pre_ok(cx)
