"""Serde forms, hexadecimal formatting, absence of panics."""
import z3
from . import terms as tm, mir, execu, gen, ref, stdov
from .terms import T
from .framework import lemma
from .mir import Ptr, E, UNDEF, Unsupported
from .ref import P, N
from .execu import Outcomes, Table
from .l4 import Run, L, hx, pt, res_kind
from .l5 import PK, SK, FADD, PkIn, judge_full, judge_comp, same_bytes, bytes_be, byte, hb, mk_pt, bat_pkser, bat_pkparse

ALPHABET = tuple(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
B64 = "/<base64::engine::general_purpose::GeneralPurpose as base64::engine::Engine>::"


class B64Log:
    """what the base64 engine was given and what it returned"""

    def __init__(self, out=None):
        self.enc, self.dec, self.engines, self.out = [], [], [], out


def serde_tab(log):
    """serde's data model ends at the harness serializer; the base64 crate's engine is uninterpreted: its
    configuration, its inputs and the use of its outputs are checked"""
    t = Table()

    @t.on("vharness::h_emit_bytes", "vharness::h_emit_str")
    def emit(eng, st, a, cal):
        st.aux["emit"] = st.aux.get("emit", ()) + ((cal["name"].rsplit("_", 1)[1], eng.load(st, a[0])),)
        return E(0, {0: (E(0, {0: (0,)}),)})

    def content(eng, st, p):
        x = eng.load(st, p) if isinstance(p, Ptr) else p
        return eng.load(st, x) if isinstance(x, Ptr) else x

    @t.on(B64 + "encode::<.*>")
    def enc(eng, st, a, cal):
        log.engines.append(eng.load(st, a[0]))
        b = content(eng, st, a[1])
        i = len(log.enc)
        txt = tuple(byte("text%d.%d" % (i, j)) for j in range(4 * ((len(b) + 2) // 3)))
        log.enc.append((b, txt))
        return (stdov.mkvec(eng, st, txt),)

    @t.on("/<std::string::String as std::ops::Deref>::deref", "/std::string::String::as_(str|bytes)")
    def sderef(eng, st, a, cal):
        v = eng.load(st, a[0])[0]
        return Ptr(v.k, (), 1, 0, v.n)

    @t.on(B64 + "decode::<.*>")
    def dec(eng, st, a, cal):
        log.engines.append(eng.load(st, a[0]))
        log.dec.append(content(eng, st, a[1]))
        if log.out is None:
            return E(1, {1: (E(0, {0: (0, 0)}),)})
        b, n = log.out
        return E(0, {0: (stdov.VecV(eng.new_heap(st, tuple(b)), n),)})
    return t


def standard(cx, log, t, sample):
    for e in log.engines:
        ok = isinstance(e, tuple) and e[0] == ALPHABET and e[1] == tuple(ALPHABET.index(i) if i in ALPHABET else 255 for i in range(256))
        c = e[2]
        ok = ok and c[0] == 1 and c[1] == 0 and isinstance(c[2], E) and c[2].d == cx_mode(cx, "RequireCanonical")
        cx.true(t + ": standard alphabet, canonical padding", ok, sample)


def cx_mode(cx, name):
    ty = next(x for x in cx.P.types.values() if str(x.get("name", "")).endswith("DecodePaddingMode"))
    return next(i for i, v in enumerate(ty["variants"]) if v["name"] == name)


def bat_serde(cx):
    import base64
    out = bat_pkser(cx)
    for l in bat_pkparse(cx):
        p = l.split()
        if p[0] != "pk_parse_slice" and cx.rng.random() < 0.5:
            continue
        b = bytes.fromhex(p[-1]) if p[-1] != "-" else b""
        out.append("serde_de_bytes " + (b.hex() or "-"))
        e = base64.b64encode(b)
        out.append("serde_de_str " + (e.hex() or "-"))
        for x in (e[:-1], e + b"=", e + b"AAAA", base64.urlsafe_b64encode(b), e.rstrip(b"="), e.replace(b"A", b"-"), b" " + e, e + b"\n", b.hex().encode()):
            if cx.rng.random() < 0.1:
                out.append("serde_de_str " + (x.hex() or "-"))
    return list(dict.fromkeys(out))


@lemma("K.serde", "every finite key; every byte string of every length (lengths other than 33, 64 and 65 as one symbolic length)", bat_serde, FADD + (
    "the base64 crate's general-purpose engine with the standard alphabet and canonical padding is RFC 4648 (its inputs, outputs and configuration are checked)",
    "serde's traits are exercised with a serializer and a deserializer that offer exactly bytes or text"))
def k_serde(cx):
    for human in (0, 1):
        t = "serialize, human-readable %d" % human
        log = B64Log()
        R = Run(cx, extra=(serde_tab(log),))
        D, B = R.D, R.B
        Q = D.base("Q")
        X, Y = D.coords(Q)
        res = R.call("vharness::h_ser", [R.heap((D.affine(Q),)), human])
        want = (4,) + bytes_be(D.f.canon(X)) + bytes_be(D.f.canon(Y))
        for s, v in res:
            em = s.aux.get("emit", ())
            if not cx.true(t + ": succeeds, emitting once", res_kind(v) == 0 and len(em) == 1 and em[0][0] == ("str" if human else "bytes"), mk_ser({})):
                continue
            b = em[0][1]
            if human:
                src = [i for i, o in log.enc if o == b]
                if not cx.true(t + ": the text is Base64 text", len(src) == 1, mk_ser({})):
                    continue
                b = src[0]
            R.valid(t + ": the canonical bytes", same_bytes(R, b, want), s.pc, mk_ser)
        standard(cx, log, t, mk_ser({}))
        cx.true(t + ": defined", len(res) >= 1)
        R.cover(t, [s for s, _ in res], mk_ser)
        R.done(t, mk_ser)
    for human in (0, 1):
        for ln in (33, 64, 65, None, "bad") if human else (33, 64, 65, None):
            t = "deserialize, human-readable %d, %s bytes" % (human, ln or "other")
            log = B64Log()
            R = Run(cx, extra=(serde_tab(log),))
            D, B = R.D, R.B
            I = PkIn(R, 4 if ln == 64 else None)
            mk = lambda env, ln=ln, human=human: mk_de(env, ln, human)
            if ln in (None, "bad"):
                n = tm.var("len", 64, 0, (1 << 63) - 1)
                b = tuple(byte("b%d" % i) for i in range(128))
                for bad in (33, 64, 65):
                    R.st.assume(tm.not_b(tm.eq(64, n, bad)))
            else:
                b = I.comp() if ln == 33 else I.full() if ln == 65 else I.xb + I.yb
                n = len(b)
            pc0 = R.st.pc
            txt = tuple(byte("c%d" % i) for i in range(88))
            if human:
                log.out = None if ln == "bad" else (b, n)
                bp = R.slice((1, 2, 3))
            else:
                bp = Ptr(R.eng.new_heap(R.st, b), (), 1, 0, n)
            res = R.call("vharness::h_de", [human, bp, R.slice(txt)])
            if human:
                cx.true(t + ": the text given is decoded", log.dec and all(x == txt for x in log.dec), mk({}))
            standard(cx, log, t, mk({}))
            if ln in (None, "bad"):
                for s, v in res:
                    cx.true(t + ": rejected", res_kind(v) == 1 or not R.possible(s.pc), mk({}))
            elif ln == 33:
                D.lifted.append(D.f.from_int(I.x))
                judge_comp(R, t, I, res, lambda v: v.f[0][0][0], mk)
            else:
                judge_full(R, t, I, res, lambda v: v.f[0][0][0], mk)
            R.valid(t + ": defined for every input", z3.Or([z3.And([B.b(c) for c in s.pc] + [z3.BoolVal(True)]) for s, _ in res] + [z3.BoolVal(False)]), pc0, mk)
            R.done(t, mk)


def mk_ser(env):
    return [l.replace("pk_ser", "serde_pk") for l in mk_pt(env)]


def mk_de(env, ln, human):
    import base64
    I = "%02x%s%s" % (env.get("t", 4), hb(env.get("x", 1)), hb(env.get("y", 1)))
    n = {33: 33, 64: 64, 65: 65}.get(ln, min(env.get("len", 0), 100))
    hs = [I[:2 * n] if n != 64 else I[2:], "04" + hb(pt(1)[0]) + hb(pt(1)[1]), hb(pt(1)[0]) + hb(pt(1)[1]), "%02x" % (2 + env.get("t", 0) % 2) + hb(env.get("x", 1)),
          "02" + hb(pt(1)[0]), "00" * n]
    out = []
    for h in hs:
        if human:
            e = base64.b64encode(bytes.fromhex(h))
            out += ["serde_de_str " + (x.hex() or "-") for x in (e, e.rstrip(b"="), e[:-1], e + b"=")]
        else:
            out.append("serde_de_bytes " + (h or "-"))
    return out


# ------------------------------------------------------------------ formatting
FLAG_ZERO, FLAG_ALT, FLAG_PLUS = 1 << 24, 1 << 23, 1 << 21
DEFAULT = (0x20 | 3 << 29, 0, 0)


def digit(n, upper):
    """ASCII code of the 4-bit term n"""
    n = tm.zext(8, n, 4) if isinstance(n, T) else n
    return tm.ite(8, tm.ult(8, n, 10), tm.add(8, n, 48), tm.add(8, n, 55 if upper else 87))


def emit(st, cs):
    st.aux["out"] = st.aux.get("out", ()) + tuple(cs)


def fmt_int(eng, st, v, w, opt, upper):
    """the states after printing the w-bit value v in hexadecimal"""
    flags, width, prec = opt
    full = w // 4
    pre = (48, 120) if flags & FLAG_ALT else ()
    if flags & FLAG_PLUS:
        raise Unsupported("format flags %#x" % flags)
    out = []
    nib = [tm.trunc(4, tm.lshr(w, v, 4 * i), w) for i in range(full)]      # least significant first
    for d in range(full, 0, -1):
        lo = 0 if d == 1 else 1 << (4 * (d - 1))
        c = tm.and_(1, tm.not_b(tm.ult(w, v, lo)), 1 if d == full else tm.ult(w, v, 1 << (4 * d)))
        if flags & FLAG_ZERO and d + len(pre) <= width and full + len(pre) <= width:
            s = st                         # zero padded to at least the full width: one case
            emit(s, pre + (48,) * (width - full - len(pre)) + tuple(digit(n, upper) for n in reversed(nib)))
            return [s]
        if isinstance(c, int) and not c:
            continue
        s = st.fork()
        s.assume(c)
        if eng.feas and eng.feas(s.pc) == "unsat":
            continue
        pad = max(0, width - d - len(pre))
        body = tuple(digit(n, upper) for n in reversed(nib[:d]))
        if flags & FLAG_ZERO:
            emit(s, pre + (48,) * pad + body)
        else:
            al = (flags >> 29) & 3
            fill = flags & 0x1fffff
            left = 0 if al == 0 else pad // 2 if al == 2 else pad
            emit(s, (fill,) * left + pre + body + (fill,) * (pad - left))
        out.append(s)
    for s in out:
        s.aux["digits"] = s.aux.get("digits", 0) + (len(out) > 1)
        if s.aux["digits"] > 3:
            raise Unsupported("the number of digits printed varies")
    return out


def run_arguments(eng, st, args):
    """interprets core::fmt::Arguments (the encoding described in core::fmt)"""
    if not (isinstance(args, tuple) and args and args[0] == "fmt"):
        raise Unsupported("format arguments %r" % (args,))
    name, a = args[1], args[2]
    m = name.rsplit("::", 1)[1] if not name.endswith(">") else name[:name.rindex("::<")].rsplit("::", 1)[1]
    if m.startswith("from_str"):
        emit(st, eng.load(st, a[0]))
        return [st]
    if m != "new":
        raise Unsupported("format arguments %s" % name)
    t, av = list(eng.load(st, a[0])), eng.load(st, a[1])
    states = [st]
    i, arg = 0, 0
    num = lambda k: sum(t[i + j] << (8 * j) for j in range(k))
    while True:
        n = t[i]
        i += 1
        if n == 0:
            return states
        if n <= 0x80:
            if n == 0x80:
                n = num(2)
                i += 2
            for s in states:
                emit(s, t[i:i + n])
            i += n
            continue
        flags, width, prec = DEFAULT
        if n & 1:
            flags = num(4)
            i += 4
        if n & 2:
            width = num(2)
            i += 2
        if n & 4:
            prec = num(2)
            i += 2
        if n & 8:
            arg = num(2)
            i += 2
        if n & 48:
            raise Unsupported("dynamic width")
        nxt = []
        for s in states:
            nxt += fmt_arg(eng, s, av[arg], (flags, width, prec))
        states = nxt
        arg += 1


def fmt_arg(eng, st, x, opt):
    if not (isinstance(x, tuple) and x[0] == "fmt" and "::new_" in x[1]):
        raise Unsupported("format argument %r" % (x,))
    kind, ty = x[1].split("::new_", 1)[1].split("::<", 1)
    ty = ty[:-1]
    p = x[2][0]
    while ty.startswith("&"):
        p = eng.load(st, p)
        ty = ty[1:]
    if kind in ("lower_hex", "upper_hex") and ty in ("u8", "u16", "u32", "u64", "usize", "u128"):
        w = {"usize": 64}.get(ty) or int(ty[1:])
        return fmt_int(eng, st, eng.load(st, p), w, opt, kind == "upper_hex")
    if kind == "display" and ty == "str":
        emit(st, eng.load(st, p))
        return [st]
    tr = {"lower_hex": "LowerHex", "upper_hex": "UpperHex", "display": "Display", "debug": "Debug"}.get(kind)
    fn = eng.prog.fn(eng.prog.find("<%s as std::fmt::%s>::fmt" % (ty, tr)))
    f = Ptr(eng.new_heap(st, ("formatter",) + opt))
    return [s for s, _ in eng.run_fn(st, fn, [p, f])]


def fmt_tab():
    t = Table()
    OK = E(0, {0: ((),)})

    @t.on("/std::fmt::Formatter::<'_>::write_fmt", "/<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt")
    def wf(eng, st, a, cal):
        return Outcomes([(s, OK) for s in run_arguments(eng, st, a[1])])

    @t.on("/std::fmt::Formatter::<'_>::write_str", "/<std::fmt::Formatter<'_> as std::fmt::Write>::write_str")
    def ws(eng, st, a, cal):
        emit(st, eng.load(st, a[1]))
        return OK

    @t.on("/<std::fmt::Formatter<'_> as std::fmt::Write>::write_char", "/std::fmt::Write::write_char.*")
    def wc(eng, st, a, cal):
        emit(st, (tm.trunc(8, a[1], 32),))
        return OK

    @t.on("/<(&)*u(8|16|32|64|size) as std::fmt::(Lower|Upper)Hex>::fmt", "/(core|std)::fmt::num::<impl std::fmt::(Lower|Upper)Hex for u(8|16|32|64|size)>::fmt")
    def ih(eng, st, a, cal):
        n = cal["name"]
        ty = n[1:n.index(" ")] if n.startswith("<") else n[n.index(" for ") + 5:n.index(">::fmt")]
        p = a[0]
        while ty.startswith("&"):
            p = eng.load(st, p)
            ty = ty[1:]
        w = {"usize": 64}.get(ty) or int(ty[1:])
        opt = eng.load(st, a[1])
        return Outcomes([(s, OK) for s in fmt_int(eng, st, eng.load(st, p), w, opt[1:], "UpperHex" in n)])
    return t


def bat_hex(cx):
    v = [0, 1, N - 1, ref.HALF, 0x0123456789abcdef << 130, int("0f" * 32, 16), int("f0" * 31, 16), 10, 15, 16, 255] + [1 << k for k in range(0, 256, 4)]
    v += [cx.rng.randrange(N) for _ in range(20)]
    return ["s_hex " + hx(x % N) for x in v] + ["sk_hex " + hx(x % N) for x in v if x % N]


@lemma("K.hex", "every scalar and every secret key", bat_hex, ("core::fmt's treatment of integers and of format templates is modelled",))
def k_hex(cx):
    for fn, op in (("vharness::h_hex_scalar", "s_hex"), ("vharness::h_hex_key", "sk_hex")):
        B = cx.bv()
        eng = cx.engine(fmt_tab(), feas=B.feas)
        eng.ovcache = {}
        st = execu.State()
        v = tm.var("v", 256, 1, N - 1)
        from .l6 import limbs_of
        x = limbs_of(v)
        if op == "sk_hex":
            x = (x,)
        k = eng.new_heap(st, x)
        f = Ptr(eng.new_heap(st, ("formatter",) + DEFAULT))
        mk = lambda env: ["%s %s" % (op, hx(env.get("v", 1)))]
        want = [digit(tm.trunc(4, tm.lshr(256, v, 4 * i), 256), False) for i in range(63, -1, -1)]
        res = []
        for s, r in eng.run_fn(st, cx.fn(fn), [Ptr(k), f]):
            if B.feas(s.pc) == "unsat":
                continue
            res.append(s)
            got = s.aux.get("out", ())
            cx.valid(op + ": succeeds", B, int(isinstance(r, E) and r.d == 0), s.pc, mk)
            if len(got) != 64:
                cx.valid(op + ": 64 digits", B, 0, s.pc, mk)
                continue
            cx.valid(op + ": the digits", B, z3.And([B.z(a, 8) == B.z(b, 8) for a, b in zip(got, want)]), s.pc, mk)
        cx.valid(op + ": defined for every input", B, z3.Or([z3.And([B.b(c) for c in s.pc] + [z3.BoolVal(True)]) for s in res] + [z3.BoolVal(False)]), (), mk)
        cx.obligations(op, eng, B, (), mk)


# ------------------------------------------------------------------ absence of panics: what other lemmas leave out
DE = "libsecp256k1_core::der::Decoder::<'_>::"
MAX64 = (1 << 64) - 1


def bat_decoder(cx):
    out = []
    for b in ("-", "02", "0201", "020100", "30060201010201", "82ff00", "8800000000000001", "0221", "88ffffffffffffffff", "02" * 12):
        n = 0 if b == "-" else len(b) // 2
        for pos in sorted({0, 1, n - 1, n} & set(range(n + 1))):
            for v in {0, 1, n - pos, n - pos + 1, MAX64, MAX64 - pos, MAX64 - pos + 1 if pos else 0, 1 << 63, (1 << 63) - 1}:
                out += ["dec %s skip %d %s %d" % (b, pos, m, v) for m in ("peek", "peek_slice", "skip")]
            out += ["dec %s skip %d %s" % (b, pos, m) for m in ("read", "seq", "len", "int", "seqlax", "lenlax", "intlax")]
    return out


@lemma("P.decoder", "buffers of 0 to 8 bytes (arbitrary content), every position in them, every 64-bit count given to peek, peek_slice and skip; the readers from every position", bat_decoder)
def p_decoder(cx):
    from .l6 import der_tab
    meth = [("peek", "peek", 1), ("peek_slice", "peek_slice", 1), ("skip", "skip", 1), ("read", "read", 0), ("read_constructed_sequence", "seq", 0),
            ("read_len", "len", 0), ("read_integer", "int", 0), ("read_seq_len_lax", "seqlax", 0), ("read_len_lax", "lenlax", 0), ("read_integer_lax", "intlax", 0),
            ("remaining_len", "skip 0 peek 0", 0)]
    for fn, op, narg in meth:
        name = cx.find("libsecp256k1_core::der::Decoder::<'_>::" + fn, "libsecp256k1_core::util::Decoder::<'_>::" + fn, "libsecp256k1::util::Decoder::<'_>::" + fn,
                       "libsecp256k1::util::Decoder::" + fn, "libsecp256k1_core::der::Decoder::" + fn)
        for n in (0, 1, 2, 3, 5, 8) if cx.tier != "thorough" else range(11):
            for pos in range(n + 1):
                B = cx.bv()
                eng = cx.engine(der_tab(B), feas=B.feas)
                eng.ovcache = {}
                st = execu.State()
                b = tuple(tm.var("b%d" % i, 8) for i in range(n))
                v = tm.var("count", 64)

                def mk(env, op=op, narg=narg, n=n, pos=pos):
                    return ["dec %s skip %d %s%s" % (bytes(env.get("b%d" % i, 0) for i in range(n)).hex() or "-", pos, op, " %d" % env.get("count", 0) if narg else "")]
                d = Ptr(eng.new_heap(st, (Ptr(eng.new_heap(st, b), (), 1, 0, n), pos)))
                res = eng.run_fn(st, cx.P.fn(name), [d] + [v] * narg)
                t = "%s at %d of %d" % (fn, pos, n)
                cx.obligations(t, eng, B, (), mk)
                for s, r in res:
                    p2 = s.mem[d.a][1]
                    p2 = B.z(p2, 64)
                    cx.valid(t + ": the position stays in the buffer: does not panic later", B, z3.And(z3.ULE(p2, n), z3.UGE(p2, pos)), s.pc, mk)
                cx.valid(t + ": returns on every path: does not panic", B, z3.Or([z3.And([B.b(c) for c in s.pc] + [z3.BoolVal(True)]) for s, _ in res] + [z3.BoolVal(False)]), (), mk)


CLEARED = ("sign", "from_secret_key", "inv", "sk_add", "sk_mul", "serialize", "serialize_compressed", "eq", "verify", "pk_add", "pk_mul", "combine", "shared")


def bat_cleared(cx):
    return ["cleared %s %s" % (hx(m), w) for m in (1, 0, N - 1) for w in CLEARED if m or w != "sign"]     # no signature exists for key 0 and message 0


@lemma("P.cleared", "the zero secret key that clearing leaves, and the public key at infinity derived from it: every message, signature, tweak and second key", bat_cleared,
       ("multiplication of the point at infinity returns an arbitrary point", "the HMAC-DRBG as an uninterpreted stream, 2 draws"))
def p_cleared(cx):
    from .l5 import sha_tab, drbg_tab
    from .fdom import FE, var
    W = "libsecp256k1::curve::"
    for what in CLEARED:
        for variant in range(5 if what in ("combine", "verify") else 2):
            tab, _ = sha_tab()
            dr = drbg_tab(tab, 2)

            def anyjac(eng, st, a, cal):
                out = []
                for val in (1, 0):
                    s = st.fork()
                    nm = "any%d" % len(cnt)
                    cnt.append(0)
                    eng.store(s, a[1], tuple(FE(var(nm + c), 8, 0) for c in "xyz") + (val,))
                    out.append((s, ()))
                return Outcomes(out)
            cnt = []
            inftab = Table()

            def maybe(eng, st, a, cal):
                q = eng.load(st, a[2])
                return anyjac(eng, st, a, cal) if q[-1] == 1 else NotImplemented
            inftab.on(W + "ECMultContext::ecmult")(maybe)
            inftab.on(W + "ECMultContext::ecmult_const")(maybe)
            R = Run(cx, extra=[inftab, tab])
            D, B = R.D, R.B
            dr[0] = D
            z, k, m = D.scp({}), D.sc("d", True), D.sc("m")
            other = z if variant == 1 else k
            Q = D.base("Q")
            inf = lambda: (((FE(var("ix%d" % len(cnt)), 1, 0), FE(var("iy%d" % len(cnt)), 1, 0), 1),), cnt.append(0))[0]
            fin = lambda: (D.affine(Q),)
            H = R.heap
            ctx = H(((),))
            call = {
                "sign": lambda: R.call(L + ("sign_with_context" if variant else "sign"), [H((m,)), H((z,))] + [ctx] * variant),
                "from_secret_key": lambda: R.call(PK + "from_secret_key" + ("_with_context" if variant else ""), [H((z,))] + [ctx] * variant),
                "inv": lambda: R.call(SK + "inv", [H((z,))]),
                "sk_add": lambda: R.call(SK + "tweak_add_assign", [H((z,)), H((other,))]),
                "sk_mul": lambda: R.call(SK + "tweak_mul_assign", [H((z,)), H((other,))]),
                "serialize": lambda: R.call(PK + "serialize", [H(inf())]),
                "serialize_compressed": lambda: R.call(PK + "serialize_compressed", [H(inf())]),
                "eq": lambda: R.call("<libsecp256k1::PublicKey as std::cmp::PartialEq>::eq", [H(inf()), H(inf() if variant else fin())]),
                "verify": lambda: R.call(L + "verify", [H((m,)), H((D.scp({}) if variant == 1 else D.sc("r", True), D.scp({}) if variant == 2 else D.sc("s", True))), H(inf())]),
                "pk_add": lambda: R.call(PK + "tweak_add_assign", [H(inf()), H((other,))]),
                "pk_mul": lambda: R.call(PK + "tweak_mul_assign", [H(inf()), H((other,))]),
                "combine": lambda: R.call(PK + "combine", [R.slice([[inf()], [inf(), fin()], [fin(), inf()], [inf(), inf()], [fin(), inf(), fin()]][variant])]),
                "shared": lambda: R.call(L + "SharedSecret::<sha2::Sha256>::new", [H(inf()), H((other,))]),
            }[what]
            t = what + " (%d)" % variant
            mk = lambda env, what=what: ["cleared %s %s" % (hx(env.get("m", 1) or 1), what)]
            res = call()
            cx.true(t + ": some outcome: does not panic", bool(res), mk({}))
            cx.obligations(t, R.eng, B, R.ax(), mk)
