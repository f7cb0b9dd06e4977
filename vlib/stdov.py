"""Overrides for the standard library and compiler intrinsics (trusted models)."""
from . import terms as tm
from .terms import T
from .mir import UNDEF, E, Ptr, FnPtr, Unsupported
from .execu import Outcomes, Table

STD = Table()
on = STD.on


# ----------------------------------------------------------------- panics
@on(r"/core::panicking::.*", r"/std::rt::(begin_)?panic.*", r"/.*unwrap_failed.*", r"/core::slice::index::slice_.*fail.*",
    r"/.*::len_mismatch_fail.*", r"/std::rt::panic_fmt", r"/core::option::expect_failed", r"/std::option::expect_failed",
    r"/alloc::raw_vec::handle_error", r"/alloc::alloc::handle_alloc_error", r"/std::alloc::handle_alloc_error", r"/core::str::slice_error_fail.*",
    r"/.*capacity_overflow.*", r"/std::process::abort", r"/core::cell::panic_.*", r"/std::vec::.*::assert_failed")
def panic(eng, st, args, cal):
    return eng.panic(st, cal["name"])


# ----------------------------------------------------------------- intrinsics
def intrinsic(name):
    return INTR.get(name)


INTR = {}


def intr(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d


@intr("cold_path", "assert_inhabited", "assert_zero_valid", "assume", "assert_mem_uninitialized_valid")
def _nop(eng, st, args, cal):
    return ()


@intr("is_val_statically_known")
def _isk(eng, st, args, cal):
    return 0


@intr("likely", "unlikely", "black_box")
def _id(eng, st, args, cal):
    return args[0]


def _bits(eng, cal, i=0):
    return eng.prog.bits(cal["targs"][i])


@intr("wrapping_add")
def _wa(eng, st, a, cal):
    return tm.add(_bits(eng, cal), a[0], a[1])


@intr("wrapping_sub")
def _ws(eng, st, a, cal):
    return tm.sub(_bits(eng, cal), a[0], a[1])


@intr("wrapping_mul")
def _wm(eng, st, a, cal):
    return tm.mul(_bits(eng, cal), a[0], a[1])


@intr("unchecked_add")
def _ua(eng, st, a, cal):
    return tm.add(_bits(eng, cal), a[0], a[1])


@intr("unchecked_sub")
def _us(eng, st, a, cal):
    return tm.sub(_bits(eng, cal), a[0], a[1])


@intr("unchecked_mul")
def _um(eng, st, a, cal):
    return tm.mul(_bits(eng, cal), a[0], a[1])


@intr("unchecked_shl")
def _ushl(eng, st, a, cal):
    return tm.shl(_bits(eng, cal), a[0], a[1])


@intr("unchecked_shr")
def _ushr(eng, st, a, cal):
    return tm.lshr(_bits(eng, cal), a[0], a[1])


@intr("exact_div", "unchecked_div")
def _ud(eng, st, a, cal):
    return tm.udiv(_bits(eng, cal), a[0], a[1])


@intr("unchecked_rem")
def _ur(eng, st, a, cal):
    return tm.urem(_bits(eng, cal), a[0], a[1])


@intr("add_with_overflow")
def _awo(eng, st, a, cal):
    w = _bits(eng, cal)
    if eng.prog.signed(cal["targs"][0]):
        return (tm.add(w, *a), tm.sarith_o("add", w, *a))
    return (tm.add(w, *a), tm.uaddo(w, *a))


@intr("sub_with_overflow")
def _swo(eng, st, a, cal):
    w = _bits(eng, cal)
    if eng.prog.signed(cal["targs"][0]):
        return (tm.sub(w, *a), tm.sarith_o("sub", w, *a))
    return (tm.sub(w, *a), tm.ult(w, a[0], a[1]))


@intr("mul_with_overflow")
def _mwo(eng, st, a, cal):
    w = _bits(eng, cal)
    if eng.prog.signed(cal["targs"][0]):
        return (tm.mul(w, *a), tm.sarith_o("mul", w, *a))
    return (tm.mul(w, *a), tm.umulo(w, *a))


@intr("saturating_sub")
def _ssub(eng, st, a, cal):
    w = _bits(eng, cal)
    return tm.ite(w, tm.ult(w, a[0], a[1]), 0, tm.sub(w, a[0], a[1]))


@intr("saturating_add")
def _sadd(eng, st, a, cal):
    w = _bits(eng, cal)
    return tm.ite(w, tm.uaddo(w, a[0], a[1]), tm.mask(w), tm.add(w, a[0], a[1]))


@intr("carrying_mul_add")
def _cma(eng, st, a, cal):
    w = _bits(eng, cal)
    z = [tm.zext(2 * w, x, w) for x in a]
    s = tm.add(2 * w, tm.add(2 * w, tm.mul(2 * w, z[0], z[1]), z[2]), z[3])
    return (tm.trunc(w, s, 2 * w), tm.trunc(w, tm.lshr(2 * w, s, w), 2 * w))


@intr("bswap")
def _bsw(eng, st, a, cal):
    w = _bits(eng, cal)
    n = w // 8
    r = 0
    for i in range(n):
        byte = tm.and_(w, tm.lshr(w, a[0], 8 * i), 255)
        r = tm.or_(w, r, tm.shl(w, byte, 8 * (n - 1 - i)))
    return r


@intr("rotate_left", "rotate_right")
def _rot(eng, st, a, cal):
    w = _bits(eng, cal)
    k = a[1]
    if isinstance(k, T):
        raise Unsupported("symbolic rotate")
    k %= w
    if cal["intrinsic"] == "rotate_right":
        k = (w - k) % w
    return tm.or_(w, tm.shl(w, a[0], k), tm.lshr(w, a[0], w - k)) if k else a[0]


@intr("ctpop")
def _ctp(eng, st, a, cal):
    w = _bits(eng, cal)
    if not isinstance(a[0], T):
        return bin(a[0]).count("1")
    r = 0
    for i in range(w):
        r = tm.add(32, r, tm.zext(32, tm.trunc(1, tm.lshr(w, a[0], i), w), 1))
    return r


def _clz(w, x, rw=32):
    if not isinstance(x, T):
        return w - x.bit_length()
    r = w
    for i in range(w):
        bit = tm.trunc(1, tm.lshr(w, x, i), w)
        r = tm.ite(rw, bit, w - 1 - i, r)
    return r


def _ctz(w, x, rw=32):
    if not isinstance(x, T):
        return (x & -x).bit_length() - 1 if x else w
    r = w
    for i in range(w - 1, -1, -1):
        bit = tm.trunc(1, tm.lshr(w, x, i), w)
        r = tm.ite(rw, bit, i, r)
    return r


@intr("ctlz", "ctlz_nonzero")
def _ctlz(eng, st, a, cal):
    return _clz(_bits(eng, cal), a[0])


@intr("cttz", "cttz_nonzero")
def _cttz(eng, st, a, cal):
    return _ctz(_bits(eng, cal), a[0])


@intr("integer_min", "integer_max")
def _imin(eng, st, a, cal):
    w = _bits(eng, cal)
    lt = tm.slt if eng.prog.signed(cal["targs"][0]) else tm.ult
    c = lt(w, a[0], a[1])
    return tm.ite(w, c, *(a if cal["intrinsic"] == "integer_min" else (a[1], a[0])))


@intr("three_way_compare")
def _twc(eng, st, a, cal):
    w = _bits(eng, cal)
    lt = tm.slt if eng.prog.signed(cal["targs"][0]) else tm.ult
    l, e = lt(w, a[0], a[1]), tm.eq(w, a[0], a[1])
    return E(tm.ite(8, l, 0, tm.ite(8, e, 1, 2)), {0: (), 1: (), 2: ()})


@intr("size_of", "min_align_of", "align_of", "pref_align_of", "size_of_val", "align_of_val")
def _size(eng, st, a, cal):
    t = eng.prog.types[cal["targs"][0]]
    return t["size"] if "size" in cal["intrinsic"] else t["align"]


@intr("needs_drop")
def _nd(eng, st, a, cal):
    return 0


@intr("volatile_load", "unaligned_volatile_load", "read_via_copy")
def _vl(eng, st, a, cal):
    return eng.load(st, a[0])


@intr("volatile_store", "unaligned_volatile_store", "write_via_move")
def _vs(eng, st, a, cal):
    eng.store(st, a[0], a[1])
    return ()


@intr("copy", "copy_nonoverlapping")
def _cp(eng, st, a, cal):
    for s2, n in eng.concretize(st, a[2]):
        pass
    if isinstance(a[2], T):
        out = Outcomes()
        for s2, n in eng.concretize(st, a[2]):
            eng.memcpy(s2, a[0], a[1], n, cal["targs"][0])
            out.append((s2, ()))
        return out
    eng.memcpy(st, a[0], a[1], a[2], cal["targs"][0])
    return ()


def zero_of(eng, ty):
    p = eng.prog
    ty = p.strip(ty)
    t = p.types[ty]
    a = p.arr(ty)
    if a:
        return (zero_of(eng, a[0]),) * a[1]
    if t["k"] in ("Uint", "Int", "Bool", "Char"):
        return 0
    if t["k"] in ("Tuple", "Closure") or (t["k"] == "Adt" and t["adtkind"] == "Struct"):
        return tuple(zero_of(eng, f) for f in p.fields(ty))
    if t["k"] == "Adt" and t["adtkind"] == "Enum":
        return E(0, {0: tuple(zero_of(eng, f) for f in p.fields(ty, 0))})
    raise Unsupported("zero of %s" % t["name"])


@intr("write_bytes", "volatile_set_memory")
def _wb(eng, st, a, cal):
    ty = cal["targs"][0]
    if isinstance(a[2], T):
        raise Unsupported("symbolic memset length")
    if a[1] != 0:
        if eng.prog.types[eng.prog.strip(ty)]["size"] == 1:
            z = a[1]
        elif isinstance(a[1], int) and eng.prog.bits(ty):
            w = eng.prog.bits(ty)
            z = int.from_bytes(bytes([a[1]] * (w // 8)), "little")
        else:
            raise Unsupported("memset of non-zero byte")
    else:
        z = zero_of(eng, ty)
    for i in range(a[2]):
        eng.store(st, eng.ptr_add(a[0], i), z)
    return ()


@intr("raw_eq")
def _req(eng, st, a, cal):
    x, y = eng.load(st, a[0]), eng.load(st, a[1])
    return val_eq(eng, cal["targs"][0], x, y)


@intr("compare_bytes")
def _cb(eng, st, a, cal):
    n = a[2]
    if isinstance(n, T):
        raise Unsupported("symbolic memcmp length")
    r = 0
    for i in range(n - 1, -1, -1):
        x, y = eng.load(st, eng.ptr_add(a[0], i)), eng.load(st, eng.ptr_add(a[1], i))
        r = tm.ite(32, tm.eq(8, x, y), r, tm.ite(32, tm.ult(8, x, y), 0xffffffff, 1))
    return r


def val_eq(eng, ty, x, y):
    p = eng.prog
    ty = p.strip(ty)
    a = p.arr(ty)
    if a:
        r = 1
        for u, v in zip(x, y):
            r = tm.and_(1, r, val_eq(eng, a[0], u, v))
        return r
    t = p.types[ty]
    if p.bits(ty):
        return tm.eq(p.bits(ty), x, y)
    if t["k"] in ("Tuple", "Closure") or (t["k"] == "Adt" and t["adtkind"] == "Struct"):
        r = 1
        for f, u, v in zip(p.fields(ty), x, y):
            r = tm.and_(1, r, val_eq(eng, f, u, v))
        return r
    raise Unsupported("val_eq %s" % t["name"])


@intr("ptr_offset_from_unsigned", "ptr_offset_from")
def _pof(eng, st, a, cal):
    x, y = a
    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.a == y.a and x.p == y.p:
        return tm.sub(64, x.off, y.off)
    raise Unsupported("offset_from of unrelated pointers")


@intr("offset", "arith_offset")
def _off(eng, st, a, cal):
    return eng.ptr_add(a[0], a[1])


@intr("transmute", "transmute_unchecked")
def _tr(eng, st, a, cal):
    return eng.transmute(a[0], cal["targs"][0], cal["targs"][1])


@intr("atomic_load")
def _al(eng, st, a, cal):
    return eng.load(st, a[0])


@intr("atomic_fence", "atomic_singlethreadfence")
def _af(eng, st, a, cal):
    return ()


@intr("ptr_metadata")
def _pm(eng, st, a, cal):
    return a[0].meta if a[0].meta is not None else ()


@intr("select_unpredictable")
def _sel(eng, st, a, cal):
    c = a[0]
    if not isinstance(c, T):
        return a[1] if c else a[2]
    return eng.merge_val(c, cal["targs"][0], a[1], a[2])


@intr("typed_swap_nonoverlapping")
def _tsw(eng, st, a, cal):
    x, y = eng.load(st, a[0]), eng.load(st, a[1])
    eng.store(st, a[0], y)
    eng.store(st, a[1], x)
    return ()


# ----------------------------------------------------------------- library
@on(r"/std::hint::black_box(::<.*>)?", r"/subtle::black_box(::<.*>)?", r"/std::hint::must_use.*")
def black_box(eng, st, args, cal):
    return args[0]


@on(r"/std::sync::atomic::(compiler_)?fence")
def fence(eng, st, args, cal):
    return ()


@on(r"/std::ptr::(const_ptr::<impl \*const T>|mut_ptr::<impl \*mut T>)::(is_null|is_aligned)", r"/std::ptr::.*::is_null.*")
def is_null(eng, st, args, cal):
    if isinstance(args[0], Ptr):
        return 0 if "null" in cal["name"] else 1
    return int(args[0] == 0)


@on(r"/std::(ptr::)?(read_volatile|read|read_unaligned)::<.*>", r"/std::ptr::(read_volatile|read|read_unaligned)::<.*>")
def ptr_read(eng, st, args, cal):
    return eng.load(st, args[0])


@on(r"/std::ptr::(write_volatile|write|write_unaligned)::<.*>")
def ptr_write(eng, st, args, cal):
    eng.store(st, args[0], args[1])
    return ()


@on(r"/std::mem::swap::<.*>")
def swap(eng, st, a, cal):
    x, y = eng.load(st, a[0]), eng.load(st, a[1])
    eng.store(st, a[0], y)
    eng.store(st, a[1], x)
    return ()


@on(r"/std::mem::replace::<.*>")
def replace(eng, st, a, cal):
    x = eng.load(st, a[0])
    eng.store(st, a[0], a[1])
    return x


@on(r"/std::mem::(forget|drop)::<.*>", r"/std::mem::forget.*")
def forget(eng, st, a, cal):
    return ()


def slice_vals(eng, st, p):
    return eng.load(st, p)


def fork_len(eng, st, n, limit=200):
    return eng.concretize(st, n, limit)


@on(r"/core::slice::<impl \[T\]>::copy_from_slice.*", r"/std::slice::<impl \[.*\]>::(copy_from_slice|clone_from_slice).*",
    r"/core::slice::<impl \[.*\]>::(copy_from_slice|clone_from_slice).*", r"/core::slice::copy_from_slice_impl.*")
def copy_from_slice(eng, st, a, cal):
    d, s = a[0], a[1]
    if isinstance(d.meta, T) or isinstance(s.meta, T) or isinstance(d.off, T) or isinstance(s.off, T):
        out = Outcomes()
        for s1, dl in fork_len(eng, st, d.meta):
            for s2, sl in fork_len(eng, s1, s.meta):
                for s3, do in fork_len(eng, s2, d.off):
                    for s4, so in fork_len(eng, s3, s.off):
                        d2 = Ptr(d.a, d.p, 1, do, dl)
                        t2 = Ptr(s.a, s.p, 1, so, sl)
                        if dl != sl:
                            eng.panic(s4, "copy_from_slice length mismatch")
                            continue
                        eng.store(s4, d2, eng.load(s4, t2))
                        out.append((s4, ()))
        return out
    if d.meta != s.meta:
        return eng.panic(st, "copy_from_slice length mismatch")
    eng.store(st, d, eng.load(st, s))
    return ()


@on(r"/core::slice::<impl \[.*\]>::fill(::<.*>)?", r"/std::slice::<impl \[.*\]>::fill(::<.*>)?")
def slice_fill(eng, st, a, cal):
    d = a[0]
    if isinstance(d.meta, T):
        return NotImplemented
    eng.store(st, d, (a[1],) * d.meta)
    return ()


@on(r"/<std::slice::Iter(Mut)?<'_, .*> as std::iter::DoubleEndedIterator>::next_back")
def iter_next_back(eng, st, a, cal):
    it = eng.load(st, a[0])
    lo, hi = it[0], it[1]
    w = isinstance(lo, tuple)
    p = lo[0] if w else lo
    q = hi[0] if isinstance(hi, tuple) else hi
    if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.a == q.a and p.p == q.p and isinstance(p.off, int) and isinstance(q.off, int)):
        return NotImplemented
    if p.off == q.off:
        return E(0, {0: ()})
    r = Ptr(q.a, q.p, q.mode, q.off - 1, q.meta, q.view)
    eng.store(st, a[0], (lo, (r,) if isinstance(hi, tuple) else r) + tuple(it[2:]))
    return E(1, {1: (r,)})


@on(r"/std::fmt::Arguments::<'_>::(new.*|from_.*)", r"/core::fmt::rt::.*", r"/std::fmt::rt::.*")
def fmt_args(eng, st, a, cal):
    return ("fmt", cal["name"], tuple(a))


def virtual(eng, st, cal, args):
    raise Unsupported("virtual call %s" % cal["name"])


# ----------------------------------------------------------------- Vec / Box (model)
class VecV:
    """Vec<T> / Box<[T]> owner: heap key + length"""
    __slots__ = ("k", "n")

    def __init__(self, k, n):
        self.k, self.n = k, n

    def __eq__(self, o):
        return isinstance(o, VecV) and (self.k, self.n) == (o.k, o.n)

    __hash__ = None

    def __repr__(self):
        return "Vec(%r,%d)" % (self.k, self.n)


def vec_data(eng, st, v):
    return st.mem[v.k]


def mkvec(eng, st, vals):
    k = eng.new_heap(st, tuple(vals))
    return VecV(k, len(vals))


@on(r"/std::vec::Vec::<[^<>]*(<.*>)?[^<>]*>::new", r"/std::vec::Vec::<.*>::with_capacity", r"/std::vec::Vec::<.*>::new",
    r"/<std::vec::Vec<.*> as std::default::Default>::default")
def vec_new(eng, st, a, cal):
    return mkvec(eng, st, ())


@on(r"/std::vec::from_elem::<.*>")
def vec_from_elem(eng, st, a, cal):
    if isinstance(a[1], T):
        raise Unsupported("symbolic vec length")
    return mkvec(eng, st, (a[0],) * a[1])


@on(r"/std::vec::Vec::<.*>::push")
def vec_push(eng, st, a, cal):
    v = eng.load(st, a[0])
    st.mem[v.k] = st.mem[v.k] + (a[1],)
    eng.store(st, a[0], VecV(v.k, v.n + 1))
    return ()


@on(r"/std::vec::Vec::<.*>::pop")
def vec_pop(eng, st, a, cal):
    v = eng.load(st, a[0])
    if v.n == 0:
        return E(0, {0: ()})
    x = st.mem[v.k][v.n - 1]
    st.mem[v.k] = st.mem[v.k][:v.n - 1]
    eng.store(st, a[0], VecV(v.k, v.n - 1))
    return E(1, {1: (x,)})


@on(r"/std::vec::Vec::<.*>::(reserve|reserve_exact|shrink_to_fit)")
def vec_reserve(eng, st, a, cal):
    return ()


@on(r"/std::vec::Vec::<.*>::len")
def vec_len(eng, st, a, cal):
    return eng.load(st, a[0]).n


@on(r"/std::vec::Vec::<.*>::is_empty")
def vec_ise(eng, st, a, cal):
    return int(eng.load(st, a[0]).n == 0)


@on(r"/<std::vec::Vec<.*> as std::ops::Deref(Mut)?>::deref(_mut)?", r"/std::vec::Vec::<.*>::as_(mut_)?slice", r"/<std::vec::Vec<.*> as std::(convert::AsRef|borrow::Borrow)<\[.*\]>>::.*")
def vec_deref(eng, st, a, cal):
    v = eng.load(st, a[0])
    return Ptr(v.k, (), 1, 0, v.n)


@on(r"/std::vec::Vec::<.*>::as_(mut_)?ptr")
def vec_ptr(eng, st, a, cal):
    v = eng.load(st, a[0])
    return Ptr(v.k, (), 1, 0)


@on(r"/<std::vec::Vec<.*> as std::ops::Index(Mut)?<usize>>::index(_mut)?")
def vec_index(eng, st, a, cal):
    v = eng.load(st, a[0])
    i = a[1]
    if isinstance(i, int):
        if i >= v.n:
            return eng.panic(st, "vec index out of bounds")
        return Ptr(v.k, (), 1, i)
    eng.obligations.append((st.pc, tm.ult(64, i, v.n), "BoundsCheck", "vec index", st.aux))
    return Ptr(v.k, (), 1, i)


@on(r"/std::vec::Vec::<.*>::(resize|truncate|clear)")
def vec_resize(eng, st, a, cal):
    v = eng.load(st, a[0])
    m = cal["name"].rsplit("::", 1)[1]
    d = st.mem[v.k]
    if m == "clear":
        d = ()
    elif m == "truncate":
        d = d[:a[1]]
    else:
        d = d[:a[1]] + (a[2],) * max(0, a[1] - len(d))
    st.mem[v.k] = d
    eng.store(st, a[0], VecV(v.k, len(d)))
    return ()


@on(r"/std::vec::Vec::<.*>::extend_from_slice", r"/.*Vec<.*> as .*SpecExtend<&.*>>::spec_extend")
def vec_extend(eng, st, a, cal):
    if not isinstance(a[1], Ptr):
        return NotImplemented
    v = eng.load(st, a[0])
    if isinstance(a[1].meta, T):
        raise Unsupported("extend with symbolic length")
    d = st.mem[v.k] + tuple(eng.load(st, a[1]))
    st.mem[v.k] = d
    eng.store(st, a[0], VecV(v.k, len(d)))
    return ()


# ----------------------------------------------------------------- Box of a fresh allocation
@on(r"/std::alloc::Layout::new::<.*>")
def layout_new(eng, st, a, cal):
    nm = cal["name"][len("std::alloc::Layout::new::<"):-1]
    t = [i for i, x in eng.prog.types.items() if x["name"] == nm]
    if not t:
        raise Unsupported("layout of " + nm)
    return E(t[0], {})


@on(r"/std::alloc::alloc(_zeroed)?")
def alloc_new(eng, st, a, cal):
    if not isinstance(a[0], E) or cal["name"].endswith("zeroed"):
        raise Unsupported("allocation with an unknown layout")
    return Ptr(eng.new_heap(st, UNDEF, a[0].d))


@on(r"/std::boxed::Box::<[^<>]*>::from_raw")
def box_from_raw(eng, st, a, cal):
    return (((a[0],), ()), ())          # Box(Unique(NonNull(pointer), PhantomData), Global)


@on(r"/std::boxed::Box::<[^<>]*>::into_raw")
def box_into_raw(eng, st, a, cal):
    return a[0][0][0][0]
