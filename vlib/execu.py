"""Symbolic executor for the dumped MIR."""
import re
import sys
import threading
from . import terms as tm
from .terms import T
from .mir import UNDEF, E, Ptr, FnPtr, Unsupported, Program

sys.setrecursionlimit(200000)

FB = 12  # bits for local index in memory keys


class State:
    __slots__ = ("mem", "pc", "aux")

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.aux = {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.aux = dict(self.aux)
        return s

    def assume(self, c):
        if isinstance(c, int):
            return
        self.pc = self.pc + (c,)


class Outcomes(list):
    """returned by an override that forks: list of (state, value)"""


class Panic(Exception):
    pass


class Abstract:
    """base class of abstract leaf values; subclasses define __eq__/same()"""

    def same(self, o):
        return self is o


class CantMerge(Exception):
    pass


def pkind(x):
    return x if isinstance(x, str) else next(iter(x))


class Engine:
    def __init__(self, prog, overrides=None, feas=None, merge=True, max_steps=50_000_000):
        self.prog = prog
        self.ov = list(overrides or [])  # list of dict name->fn or (regex, fn)
        self.ovcache = {}
        self.feas = feas  # callable(pc) -> 'sat'/'unsat'/'unknown'
        self.merge = merge
        self.obligations = []  # (pc, cond, kind, where)
        self.panics = []  # (pc, where, msg)
        self.nextfid = 1
        self.framefn = {}
        self.heapty = {}
        self.encoded = {}  # functions executed -> count
        self.used_ov = {}  # override hits
        self.steps = 0
        self.max_steps = max_steps
        self.forks = 0
        self.stack = []
        self.constmem = {}
        self.hooks = {}
        self.assume_asserts = False
        self.heapn = 0
        self.trace = False
        self.deadline = None
        self.cut = None         # loop cutting: called at every block
        self.ct = None          # secret-independence monitor (ct.CT)

    # ------------------------------------------------------------------ memory
    def new_heap(self, st, val, ty=None, tag="h"):
        self.heapn += 1
        k = (tag, self.heapn)
        st.mem[k] = val
        self.heapty[k] = ty
        return k

    def keyty(self, k):
        if isinstance(k, int):
            fn = self.framefn[k >> FB]
            return fn.locals[k & ((1 << FB) - 1)]
        return self.heapty.get(k)

    def base(self, st, k):
        m = st.mem
        if k in m:
            return m[k]
        if isinstance(k, tuple) and k[0] == "c":
            v = self.constmem.get(k)
            if v is None:
                v = self.constmem[k] = self.prog.alloc_value(k)
            return v
        if isinstance(k, int):
            return UNDEF
        raise Unsupported("no memory at %r" % (k,))

    def step_get(self, v, p, ty=None):
        if isinstance(p, int):
            if p >= 0:
                if isinstance(v, tuple):
                    return v[p]
                if isinstance(v, Abstract):
                    return v.field(self, p)
                if v is UNDEF:
                    return UNDEF
                raise Unsupported("field %d of %r" % (p, v))
            if isinstance(v, E):
                f = v.f.get(-p - 1)
                if f is None:
                    return UNDEF
                return f
            if v is UNDEF:
                return UNDEF
            raise Unsupported("downcast of %r" % (v,))
        return self.select(v, p)

    def select(self, v, i):
        """symbolic index"""
        if not isinstance(v, tuple):
            raise Unsupported("symbolic index into %r" % (type(v),))
        h = self.hooks.get("select")
        if h:
            r = h(self, v, i)
            if r is not None:
                return r
        lo, hi = i.lo, min(i.hi, len(v) - 1)
        r = v[hi]
        for j in range(hi - 1, lo - 1, -1):
            if v[j] is r:
                continue
            r = self.ite_val(tm.eq(i.w, i, j), v[j], r)
        return r

    def ite_val(self, c, x, y, w=None):
        """untyped merge; scalars need a width: taken from whichever side is symbolic, or from
        the caller"""
        if x is y:
            return x
        if isinstance(x, T) or isinstance(y, T):
            ww = x.w if isinstance(x, T) else y.w
            return tm.ite(ww, c, x, y)
        if isinstance(x, int) and isinstance(y, int):
            if x == y:
                return x
            if w is None:
                return ("INT", c, x, y)  # placeholder, resolved by fixw
            return tm.ite(w, c, x, y)
        raise CantMerge("%r / %r" % (x, y))

    def get(self, st, pl):
        a, p, mode, off, meta, view = pl
        if self.ct is not None:
            self.ct.place(self, st, pl)
        v = self.base(st, a)
        for q in p:
            v = self.step_get(v, q) if not isinstance(q, T) else self.typed_select(st, pl, v, q)
        if mode == 0:
            if off != 0:
                raise Unsupported("read past object")
            return v
        if mode == 1:
            if meta is not None:
                return self.subarr(v, off, meta)
            if isinstance(off, int):
                if isinstance(v, tuple):
                    if off >= len(v):
                        raise Unsupported("out of bounds read %d of %d" % (off, len(v)))
                    return v[off]
                if v is UNDEF:
                    return UNDEF
                if off == 0:
                    return v
                return self.step_get(v, off)
            return self.typed_select(st, pl, v, off)
        return self.subarr(v, off, view)

    def subarr(self, v, off, n):
        if not isinstance(off, int) or not isinstance(n, int):
            raise Unsupported("symbolic subarray off=%r n=%r" % (off, n))
        if off == 0 and n == len(v):
            return v
        return v[off:off + n]

    def typed_select(self, st, pl, v, i):
        if isinstance(v, Abstract) and hasattr(v, "select"):
            return v.select(self, i)
        if isinstance(v, tuple) and v and all(isinstance(x, (int, T)) for x in v):
            w = next((x.w for x in v if isinstance(x, T)), None)
            if w is None:
                # constant table: width via the type of the base allocation
                w = self.elem_width(pl)
                if w is None:
                    raise Unsupported("width of constant array")
            lo, hi = i.lo, min(i.hi, len(v) - 1)
            r = v[hi]
            for j in range(hi - 1, lo - 1, -1):
                r = tm.ite(w, tm.eq(i.w, i, j), v[j], r)
            return r
        if isinstance(v, tuple):
            h = self.hooks.get("select")
            if h:
                r = h(self, st, pl, v, i)
                if r is not None:
                    return r
            ty = self.elem_type(pl)
            lo, hi = i.lo, min(i.hi, len(v) - 1)
            if hi - lo > 300:
                raise Unsupported("symbolic index into large table")
            r = v[hi]
            for j in range(hi - 1, lo - 1, -1):
                r = self.merge_val(tm.eq(i.w, i, j), ty, v[j], r)
            return r
        raise Unsupported("symbolic select in %r" % (type(v),))

    def elem_type(self, pl):
        t = self.place_type(pl[0], pl[1])
        if t is None:
            return None
        a = self.prog.arr(t)
        if a:
            return a[0]
        tt = self.prog.types[t]
        return tt.get("elem")

    def elem_width(self, pl):
        t = self.elem_type(pl)
        return self.prog.bits(t) if t is not None else None

    def place_type(self, key, path):
        ty = self.keyty(key)
        if ty is None and isinstance(key, tuple) and key[0] == "c":
            if isinstance(key[2], tuple):
                el = key[2][1]
                for t, d in self.prog.types.items():
                    if d["k"] in ("Slice", "Array") and d.get("elem") == el:
                        ty = t
                        break
            else:
                ty = key[2]
        if ty is None:
            return None
        var = None
        for q in path:
            ty = self.prog.strip(ty)
            if isinstance(q, int) and q < 0:
                var = -q - 1
                continue
            a = self.prog.arr(ty)
            if a:
                ty = a[0]
            elif self.prog.types[ty]["k"] == "Slice":
                ty = self.prog.types[ty]["elem"]
            else:
                ty = self.prog.fields(ty, var or 0)[q]
            var = None
        return self.prog.strip(ty)

    def put(self, st, pl, val):
        a, p, mode, off, meta, view = pl
        if self.ct is not None:
            self.ct.place(self, st, pl)
        if isinstance(a, tuple) and a[0] == "c" and a not in st.mem:
            st.mem[a] = self.base(st, a)
        if mode == 0 and not p:
            if off != 0:
                raise Unsupported("write past object")
            st.mem[a] = val
            return
        root = self.base(st, a)
        path = p
        if mode == 1:
            if meta is not None:
                if not isinstance(off, int) or not isinstance(meta, int):
                    raise Unsupported("symbolic slice write")
                path = p + (("r", off, meta),)
            else:
                path = p + (off,)
        elif mode == 2:
            path = p + (("r", off, view),)
        elif off != 0:
            raise Unsupported("write past object")
        st.mem[a] = self.upd(root, path, 0, val, pl)

    def upd(self, v, path, i, val, pl):
        if i == len(path):
            return val
        q = path[i]
        if isinstance(q, int):
            if q >= 0:
                if v is UNDEF:
                    l = [UNDEF] * (q + 1)
                elif isinstance(v, tuple):
                    l = list(v)
                    if q >= len(l):
                        if isinstance(pl[0], int) or True:
                            l.extend([UNDEF] * (q + 1 - len(l)))
                elif isinstance(v, Abstract):
                    return v.with_field(self, q, val) if i == len(path) - 1 else self._abs_upd(v)
                else:
                    raise Unsupported("update field %d of %r" % (q, v))
                l[q] = self.upd(l[q], path, i + 1, val, pl)
                return tuple(l)
            k = -q - 1
            f = dict(v.f) if isinstance(v, E) else {}
            d = v.d if isinstance(v, E) else UNDEF
            f[k] = self.upd(f.get(k, UNDEF), path, i + 1, val, pl)
            return E(d, f)
        if isinstance(q, T):
            l = list(v)
            w = None
            ety = None
            for j in range(q.lo, min(q.hi, len(l) - 1) + 1):
                n = self.upd(l[j], path, i + 1, val, pl)
                c = tm.eq(q.w, q, j)
                if isinstance(n, (int, T)) and isinstance(l[j], (int, T)):
                    if isinstance(n, int) and isinstance(l[j], int) and n != l[j]:
                        if w is None:
                            w = self.elem_width(pl)
                        l[j] = tm.ite(w, c, n, l[j])
                    elif n is not l[j] and n != l[j]:
                        l[j] = tm.ite(n.w if isinstance(n, T) else l[j].w, c, n, l[j])
                else:
                    if ety is None:
                        ety = self.elem_type((pl[0], path[:i]))
                    l[j] = self.merge_val(c, ety, n, l[j])
            return tuple(l)
        # range
        _, off, n = q
        l = list(v)
        if len(val) != n:
            raise Unsupported("range write size")
        l[off:off + n] = val
        return tuple(l)

    def _abs_upd(self, v):
        raise Unsupported("update inside abstract %r" % (v,))

    # ------------------------------------------------------------- pointers
    def deref(self, ptr):
        """pointer value -> place tuple"""
        if isinstance(ptr, Ptr):
            m = ptr.meta
            if isinstance(m, tuple):
                m = None
            return (ptr.a, ptr.p, ptr.mode, ptr.off, m, ptr.view)
        if isinstance(ptr, tuple) and len(ptr) == 1:
            return self.deref(ptr[0])
        raise Unsupported("deref of %r" % (ptr,))

    def load(self, st, ptr):
        return self.get(st, self.deref(ptr))

    def store(self, st, ptr, v):
        self.put(st, self.deref(ptr), v)

    def ptr_of(self, pl):
        a, p, mode, off, meta, view = pl
        return Ptr(a, p, mode, off, meta, view)

    def ptr_add(self, p, n, w=64):
        if isinstance(p, int):
            raise Unsupported("arithmetic on integer pointer")
        if isinstance(p.off, int) and isinstance(n, int):
            o = p.off + tm.tosigned(64, n)
        else:
            o = tm.add(64, p.off, n)
        return Ptr(p.a, p.p, p.mode if p.mode != 2 else 2, o, p.meta, p.view)

    def place_field(self, pl, i):
        a, p, mode, off, meta, view = pl
        if mode == 0:
            return (a, p + (i,), 0, 0, None, None)
        if mode == 1:
            return (a, p + (off, i), 0, 0, None, None)
        # field of a view: tuple-like access
        return (a, p + (self.addoff(off, i),), 0, 0, None, None)

    def addoff(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        return tm.add(64, a, b)

    def place_down(self, pl, v):
        a, p, mode, off, meta, view = pl
        if mode == 1:
            p = p + (off,)
        return (a, p + (-v - 1,), 0, 0, None, None)

    def place_index(self, pl, i):
        a, p, mode, off, meta, view = pl
        if mode == 0:
            return (a, p, 1, i, None, None)
        if mode == 2 or meta is not None:
            return (a, p, 1, self.addoff(off, i), None, None)
        return (a, p + (off,), 1, i, None, None)

    def place_sub(self, pl, frm, to, from_end, ln):
        a, p, mode, off, meta, view = pl
        n = meta if meta is not None else (view if mode == 2 else ln)
        end = (n - to) if from_end else to
        if mode == 0:
            return (a, p, 1, frm, end - frm, None)
        return (a, p, 1, self.addoff(off, frm), end - frm, None)

    # --------------------------------------------------------------- merging
    def merge_val(self, c, ty, x, y):
        if x is y:
            return x
        if isinstance(x, T) or isinstance(y, T):
            if x is UNDEF:
                return y
            if y is UNDEF:
                return x
            if not isinstance(x, (int, T)) or not isinstance(y, (int, T)):
                raise CantMerge()
            return tm.ite(x.w if isinstance(x, T) else y.w, c, x, y)
        if isinstance(x, int) and isinstance(y, int):
            if x == y:
                return x
            w = self.prog.bits(ty) if ty is not None else None
            if w is None:
                raise CantMerge("no width")
            return tm.ite(w, c, x, y)
        if x is UNDEF:
            return y
        if y is UNDEF:
            return x
        if isinstance(x, Abstract) or isinstance(y, Abstract):
            if isinstance(x, Abstract) and isinstance(y, Abstract):
                if x.same(y):
                    return x
            h = self.hooks.get("femerge")
            if h:
                r = h(self, c, x, y)
                if r is not None:
                    return r
            raise CantMerge("abstract")
        if isinstance(x, E) and isinstance(y, E):
            d = x.d if (not isinstance(x.d, T) and x.d == y.d) or x.d is y.d else (
                y.d if x.d is UNDEF else x.d if y.d is UNDEF else tm.ite(8, c, x.d, y.d))
            f = dict(x.f)
            for v, fy in y.f.items():
                fx = f.get(v)
                if fx is None:
                    f[v] = fy
                elif fx is not fy:
                    if fx is UNDEF:
                        f[v] = fy
                        continue
                    if fy is UNDEF:
                        continue
                    tys = self.prog.fields(self.prog.strip(ty), v) if ty is not None else [None] * len(fx)
                    n = max(len(fx), len(fy))
                    fx = tuple(fx) + (UNDEF,) * (n - len(fx))
                    fy = tuple(fy) + (UNDEF,) * (n - len(fy))
                    f[v] = tuple(self.merge_val(c, t, a, b) for t, a, b in zip(tys, fx, fy))
            return E(d, f)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                raise CantMerge("len")
            if ty is None:
                tys = [None] * len(x)
            else:
                s = self.prog.strip(ty)
                a = self.prog.arr(s)
                if a:
                    tys = [a[0]] * len(x)
                elif self.prog.types[s]["k"] == "Slice":
                    tys = [self.prog.types[s]["elem"]] * len(x)
                elif self.prog.types[s]["k"] in ("Adt", "Tuple", "Closure"):
                    tys = self.prog.fields(s)
                    if len(tys) != len(x):
                        tys = [None] * len(x)
                else:
                    tys = [None] * len(x)
            return tuple(a if a is b else self.merge_val(c, t, a, b) for t, a, b in zip(tys, x, y))
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x == y:
                return x
            if x.a == y.a and x.p == y.p and x.mode == y.mode == 1 and x.view == y.view:
                m = x.meta
                if m != y.meta:
                    if isinstance(m, tuple) or isinstance(y.meta, tuple) or m is None or y.meta is None:
                        raise CantMerge("ptr meta")
                    if not self.hooks.get("merge_slices"):
                        raise CantMerge("ptr meta")
                    m = tm.ite(64, c, m, y.meta)
                if x.off != y.off and not self.hooks.get("merge_slices"):
                    raise CantMerge("ptr off")
                o = x.off if x.off == y.off else tm.ite(64, c, x.off, y.off)
                return Ptr(x.a, x.p, 1, o, m, x.view)
            raise CantMerge("ptr")
        try:
            if x == y:
                return x
        except Exception:
            pass
        raise CantMerge("%r %r" % (type(x), type(y)))

    def try_merge(self, s1, s2):
        p1, p2 = s1.pc, s2.pc
        n = 0
        while n < len(p1) and n < len(p2) and p1[n] is p2[n]:
            n += 1
        suf1, suf2 = p1[n:], p2[n:]
        for x in suf1 + suf2:
            if not isinstance(x, (T, int)):
                return None
        c1, c2 = tm.conj(suf1), tm.conj(suf2)
        if not isinstance(c1, T) and not isinstance(c2, T):
            pass
        c = c1
        r = State()
        mem = dict(s1.mem)
        try:
            for k, y in s2.mem.items():
                x = mem.get(k, UNDEF)
                if x is y:
                    continue
                mem[k] = self.merge_val(c, self.keyty(k), x, y)
            ax = {}
            for k in set(s1.aux) | set(s2.aux):
                x, y = s1.aux.get(k), s2.aux.get(k)
                if x is y or x == y:
                    ax[k] = x
                else:
                    raise CantMerge("aux")
        except CantMerge as e:
            self.mergefail = e
            return None
        r.mem = mem
        r.aux = ax
        d = tm.or_(1, c1, c2)
        r.pc = p1[:n] + ((d,) if isinstance(d, T) else ())
        return r

    def merge_states(self, sts):
        if not self.merge or len(sts) < 2:
            return sts
        acc = []
        for s in sts:
            for i in range(len(acc)):
                m = self.try_merge(acc[i], s)
                if m is not None:
                    acc[i] = m
                    break
            else:
                acc.append(s)
        return acc

    # ------------------------------------------------------------- compile
    def compile(self, fn):
        raw = fn.raw
        bl = raw.get("blocks")
        if not bl:
            raise Unsupported("no body: %s" % fn.name)
        if len(fn.locals) >= 1 << FB:
            raise Unsupported("too many locals")
        fn.blocks = []
        for b in bl:
            stm = []
            for s in b["s"]:
                c = self.c_stmt(fn, s)
                if c is not None:
                    stm.append(c)
            fn.blocks.append((stm, b["t"], b.get("l")))
        self.c_ipdom(fn)

    def succs(self, t):
        k = pkind(t)
        if k == "Goto":
            return [t["Goto"]["target"]]
        if k == "SwitchInt":
            tg = t["SwitchInt"]["targets"]
            return [b for _, b in tg["branches"]] + ([tg["otherwise"]] if tg["otherwise"] is not None else [])
        if k == "Call":
            x = t["Call"]["target"]
            return [] if x is None else [x]
        if k in ("Assert", "Drop"):
            return [t[k]["target"]]
        if k == "InlineAsm":
            return [t[k]["destination"]] if t[k].get("destination") is not None else []
        return []

    def c_ipdom(self, fn):
        n = len(fn.blocks)
        EXIT = n
        succ = []
        for stm, t, l in fn.blocks:
            succ.append([EXIT] if t == "Return" else self.succs(t))
        pred = [[] for _ in range(n + 1)]
        for i, ss in enumerate(succ):
            for s in ss:
                pred[s].append(i)
        live = set()
        work = [EXIT]
        while work:
            x = work.pop()
            if x in live:
                continue
            live.add(x)
            work.extend(pred[x])
        fn.live = live
        # iterative post-dominators over live blocks
        order = []
        seen = set()

        def dfs(r):
            st = [(r, iter(pred[r]))]
            seen.add(r)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen and y in live:
                        seen.add(y)
                        st.append((y, iter(pred[y])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(EXIT)
        num = {x: i for i, x in enumerate(order)}
        idom = {EXIT: EXIT}
        changed = True
        rpo = order[::-1]
        while changed:
            changed = False
            for x in rpo:
                if x == EXIT:
                    continue
                new = None
                for s in succ[x]:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            a, b = s, new
                            while a != b:
                                while num[a] < num[b]:
                                    a = idom[a]
                                while num[b] < num[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(x) != new:
                    idom[x] = new
                    changed = True
        fn.ipdom = idom

    def const_val(self, c):
        ty = c["ty"]
        kd = c["kind"]
        if kd == "ZeroSized":
            return self.zst(ty)
        if isinstance(kd, dict) and "Allocated" in kd:
            a = kd["Allocated"]
            data = a["bytes"]
            ptrs = {}
            for o, p in a["provenance"]["ptrs"]:
                ptrs[o] = p[0] if isinstance(p, list) else p
            return self.prog.decode(ty, data, ptrs)
        raise Unsupported("constant %r" % (kd,))

    def zst(self, ty):
        p = self.prog
        ty = p.strip(ty)
        t = p.types[ty]
        if t["k"] in ("Tuple", "Closure"):
            return tuple(self.zst(f) for f in t.get("fields", []))
        if t["k"] == "Adt" and t["adtkind"] == "Struct":
            return tuple(self.zst(f) for f in p.fields(ty))
        if t["k"] == "Adt" and t["adtkind"] == "Enum":
            vs = t["variantsshape"]
            v = vs["Single"]["index"] if "Single" in vs else 0
            return E(v, {v: tuple(self.zst(f) for f in p.fields(ty, v))})
        if t["k"] == "Array":
            return tuple(self.zst(t["elem"]) for _ in range(t["len"]))
        return ()

    def c_operand(self, fn, op):
        k = pkind(op)
        if k in ("Copy", "Move"):
            return self.c_read(fn, op[k])
        if k == "Constant":
            c = op[k]["const_"]
            try:
                v = self.const_val(c)
            except Unsupported as e:
                msg = str(e)

                def bad(st, b):
                    raise Unsupported(msg)
                return bad
            return lambda st, b: v
        if k == "RuntimeChecks":
            # UbChecks / ContractChecks / OverflowChecks
            v = 1 if op[k] == "OverflowChecks" else 0
            return lambda st, b: v
        raise Unsupported("operand %r" % (op,))

    def op_ty(self, fn, op):
        k = pkind(op)
        if k in ("Copy", "Move"):
            return self.place_ty(fn, op[k])
        if k == "RuntimeChecks":
            return next(i for i, t in self.prog.types.items() if t["k"] == "Bool")
        return op[k]["const_"]["ty"]

    def place_ty(self, fn, pl):
        p = self.prog
        ty = fn.locals[pl["local"]]
        for pr in pl["projection"]:
            k = pkind(pr)
            if k == "Deref":
                t = p.types[p.strip(ty)]
                ty = t.get("to")
                if ty is None:
                    ty = t["targs"][0]  # Box
            elif k == "Field":
                ty = pr["Field"][1]
            elif k in ("Index", "ConstantIndex"):
                t = p.types[p.strip(ty)]
                a = p.arr(ty)
                ty = a[0] if a else t["elem"]
            elif k == "Downcast" or k == "Subslice" or k == "OpaqueCast":
                pass
        return ty

    def c_read(self, fn, pl):
        l = pl["local"]
        proj = pl["projection"]
        if not proj:
            def rd(st, b):
                return st.mem.get(b + l, UNDEF)
            return rd
        # fast path: only plain fields
        if all(isinstance(x, dict) and "Field" in x for x in proj):
            idx = []
            ty = fn.locals[l]
            for x in proj:
                i, fty = x["Field"]
                if not self.prog.is_transparent(ty):
                    if self.prog.is_ga(ty):
                        idx = None
                        break
                    idx.append(i)
                ty = fty
            if idx is not None:
                if len(idx) == 1:
                    i0 = idx[0]

                    def rd1(st, b):
                        v = st.mem.get(b + l, UNDEF)
                        if type(v) is tuple:
                            return v[i0]
                        return self.step_get(v, i0)
                    return rd1

                def rdn(st, b):
                    v = st.mem.get(b + l, UNDEF)
                    for i in idx:
                        v = v[i] if type(v) is tuple else self.step_get(v, i)
                    return v
                return rdn
        cp = self.c_place(fn, pl)
        return lambda st, b: self.get(st, cp(st, b))

    def c_place(self, fn, pl):
        l = pl["local"]
        steps = []
        ty = fn.locals[l]
        p = self.prog
        for pr in pl["projection"]:
            k = pkind(pr)
            if k == "Deref":
                tt = p.types[p.strip(ty)]
                steps.append(("D", None))
                ty = tt.get("to") if tt.get("to") is not None else tt["targs"][0]
            elif k == "Field":
                i, fty = pr["Field"]
                if not p.is_transparent(ty):
                    if p.is_ga(ty):
                        raise Unsupported("field of GenericArray")
                    steps.append(("F", i))
                ty = fty
            elif k == "Downcast":
                v = pr["Downcast"]
                steps.append(("V", v if isinstance(v, int) else v[0]))
            elif k == "Index":
                steps.append(("I", pr["Index"]))
                a = p.arr(ty)
                ty = a[0] if a else p.types[p.strip(ty)]["elem"]
            elif k == "ConstantIndex":
                c = pr["ConstantIndex"]
                a = p.arr(ty)
                steps.append(("C", (c["offset"], c["from_end"], a[1] if a else None)))
                ty = a[0] if a else p.types[p.strip(ty)]["elem"]
            elif k == "Subslice":
                c = pr["Subslice"]
                a = p.arr(ty)
                steps.append(("S", (c["from"], c["to"], c["from_end"], a[1] if a else None)))
            else:
                raise Unsupported("projection %r" % (pr,))

        def place(st, b):
            cur = (b + l, (), 0, 0, None, None)
            for k, x in steps:
                if k == "D":
                    cur = self.deref(self.get(st, cur))
                elif k == "F":
                    cur = self.place_field(cur, x)
                elif k == "I":
                    cur = self.place_index(cur, st.mem[b + x])
                elif k == "V":
                    cur = self.place_down(cur, x)
                elif k == "C":
                    o, fe, n = x
                    if fe:
                        n = cur[4] if cur[4] is not None else n
                        if isinstance(n, T):
                            o = tm.sub(64, n, o)
                        else:
                            o = n - o
                    cur = self.place_index(cur, o)
                else:
                    cur = self.place_sub(cur, x[0], x[1], x[2], x[3])
            return cur
        return place

    def c_stmt(self, fn, s):
        if isinstance(s, str):
            return None
        k = pkind(s)
        if k == "Live":
            return None
        if k == "Dead":
            return None
        if k == "Assign":
            pl, rv = s["Assign"]
            f = self.c_rvalue(fn, rv["r"], rv["ty"])
            l = pl["local"]
            if not pl["projection"]:
                def asg(st, b):
                    st.mem[b + l] = f(st, b)
                return asg
            cp = self.c_place(fn, pl)

            def asg2(st, b):
                v = f(st, b)
                self.put(st, cp(st, b), v)
            return asg2
        if k == "SetDiscriminant":
            x = s[k]
            pl = x[0] if isinstance(x, list) else x["place"]
            vi = x[1] if isinstance(x, list) else x["variant_index"]
            cp = self.c_place(fn, pl)

            def sd(st, b):
                q = cp(st, b)
                v = self.get(st, q)
                self.put(st, q, E(vi, v.f if isinstance(v, E) else {}))
            return sd
        if k == "Intrinsic":
            x = s[k]
            if isinstance(x, dict) and "CopyNonOverlapping" in x:
                c = x["CopyNonOverlapping"]
                src, dst, n = (self.c_operand(fn, c[z]) for z in ("src", "dst", "count"))
                ety = self.prog.types[self.op_ty(fn, c["src"])]["to"]

                def cno(st, b):
                    self.memcpy(st, src(st, b), dst(st, b), n(st, b), ety)
                return cno
            return None  # Assume
        raise Unsupported("statement %r" % (s,))

    def memcpy(self, st, src, dst, n, ety):
        if isinstance(n, T):
            raise Unsupported("symbolic copy length")
        vals = [self.load(st, self.ptr_add(src, i)) for i in range(n)]
        for i in range(n):
            self.store(st, self.ptr_add(dst, i), vals[i])

    def c_rvalue(self, fn, r, ty):
        p = self.prog
        k = pkind(r)
        if k == "Use":
            return self.c_operand(fn, r[k][0])
        if k in ("Ref", "AddressOf"):
            pl = r[k][-1]
            cp = self.c_place(fn, pl)
            pty = self.place_ty(fn, pl)
            # pointer metadata of a reborrowed fat pointer that is not a slice (dyn) is kept by value
            if pl["projection"] == ["Deref"]:
                l = pl["local"]

                def reb(st, b):
                    v = st.mem[b + l]
                    return v[0] if type(v) is tuple and len(v) == 1 and isinstance(v[0], Ptr) else v
                t0 = p.types[p.strip(fn.locals[l])]
                if t0["k"] in ("Ref", "RawPtr"):
                    return reb
            return lambda st, b: self.ptr_of(cp(st, b))
        if k == "BinaryOp":
            op, a, b2 = r[k]
            return self.c_binop(fn, op if isinstance(op, str) else pkind(op), a, b2, False)
        if k == "CheckedBinaryOp":
            op, a, b2 = r[k]
            return self.c_binop(fn, op, a, b2, True)
        if k == "UnaryOp":
            op, a = r[k]
            fa = self.c_operand(fn, a)
            aty = self.op_ty(fn, a)
            if op == "PtrMetadata":
                def pm(st, b):
                    v = fa(st, b)
                    m = v.meta if isinstance(v, Ptr) else None
                    if isinstance(v, Ptr) and m is None and v.view is not None:
                        m = v.view
                    return () if m is None else m
                return pm
            w = p.bits(aty)
            if op == "Not":
                return lambda st, b: tm.not_(w, fa(st, b))
            if op == "Neg":
                return lambda st, b: tm.sub(w, 0, fa(st, b))
            raise Unsupported("unop %r" % (op,))
        if k == "Cast":
            ck, a, tty = r[k]
            return self.c_cast(fn, ck, a, tty)
        if k == "Aggregate":
            kd, ops = r[k]
            fs = [self.c_operand(fn, o) for o in ops]
            ak = pkind(kd)
            if ak == "Adt":
                x = kd[ak]
                vi = x[1]
                if p.is_enum(ty):
                    return lambda st, b: E(vi, {vi: tuple([f(st, b) for f in fs])})
                if p.is_transparent(ty):
                    f0 = fs[0]
                    if p.types[ty]["adtkind"] == "Union" and p.types[p.op_dummy if False else self.op_ty(fn, ops[0])]["size"] == 0 and p.types[ty]["size"] != 0:
                        return lambda st, b: UNDEF
                    return lambda st, b: f0(st, b)
                if p.types[ty].get("adtkind") == "Union":
                    raise Unsupported("union aggregate %s" % p.types[ty]["name"])
                return lambda st, b: tuple([f(st, b) for f in fs])
            if ak in ("Tuple", "Array", "Closure"):
                return lambda st, b: tuple([f(st, b) for f in fs])
            if ak == "RawPtr":
                f0, f1 = fs

                def rp(st, b):
                    v, m = f0(st, b), f1(st, b)
                    if isinstance(m, tuple) and m == ():
                        return v
                    if not isinstance(v, Ptr):
                        return Ptr(("dangling", v), (), 1, 0, m)
                    return self.fatten(v, m)
                return rp
            raise Unsupported("aggregate %r" % (kd,))
        if k == "Repeat":
            a, n = r[k]
            f0 = self.c_operand(fn, a)
            x = n["kind"]
            cnt = None
            if "Value" in x:
                cnt = int.from_bytes(bytes(x["Value"][1]["bytes"]), "little")
            if cnt is None:
                raise Unsupported("repeat %r" % (n,))
            return lambda st, b: (f0(st, b),) * cnt
        if k == "Discriminant":
            rd = self.c_read(fn, r[k])
            ety = p.strip(self.place_ty(fn, r[k]))
            if not p.is_enum(ety):
                return lambda st, b: 0
            w = p.bits(ty)
            dm = [p.discr(ety, v) & tm.mask(w) for v in range(len(p.types[ety]["variants"]))]
            ident = dm == list(range(len(dm)))

            vs = p.types[ety].get("variantsshape")
            if isinstance(vs, dict) and "Single" in vs:     # only one variant is inhabited
                only = dm[vs["Single"]["index"]]
                return lambda st, b: only

            def dis(st, b):
                v = rd(st, b)
                if not isinstance(v, E):
                    raise Unsupported("discriminant of %r" % (v,))
                d = v.d
                if isinstance(d, int):
                    return dm[d]
                if ident:
                    return tm.zext(w, d, 8)
                r = dm[-1]
                for i in range(len(dm) - 2, -1, -1):
                    r = tm.ite(w, tm.eq(8, d, i), dm[i], r)
                return r
            return dis
        if k == "Len":
            cp = self.c_place(fn, r[k])
            a = p.arr(self.place_ty(fn, r[k]))
            if a:
                n = a[1]
                return lambda st, b: n
            return lambda st, b: cp(st, b)[4]
        if k == "ReifyFn":
            c = r[k]
            return lambda st, b: FnPtr(c["sym"], c["name"])
        if k == "CopyForDeref":
            return self.c_read(fn, r[k])
        raise Unsupported("rvalue %r" % (k,))

    def fatten(self, v, m):
        if v.mode == 0:
            # pointer to a whole object used as slice pointer
            return Ptr(v.a, v.p, 1, v.off, m, None) if v.view is None else Ptr(v.a, v.p, 1, v.off, m, None)
        return Ptr(v.a, v.p, 1, v.off, m, None)

    def c_binop(self, fn, op, a, b2, checked):
        p = self.prog
        fa, fb = self.c_operand(fn, a), self.c_operand(fn, b2)
        aty = p.strip(self.op_ty(fn, a))
        t = p.types[aty]
        isptr = t["k"] in ("RawPtr", "Ref", "FnPtr")
        if op == "Offset":
            return lambda st, b: self.ptr_add(fa(st, b), fb(st, b))
        if isptr:
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                def pc(st, b):
                    return self.ptrcmp(op, fa(st, b), fb(st, b))
                return pc
            raise Unsupported("pointer binop %s" % op)
        w = p.bits(aty)
        if w is None:
            raise Unsupported("binop %s on %s" % (op, t["name"]))
        sg = t["k"] == "Int"
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op.endswith("WithOverflow"):
            op = op[:-12]
            checked = True
        g = {"Add": tm.add, "Sub": tm.sub, "Mul": tm.mul, "BitAnd": tm.and_, "BitOr": tm.or_, "BitXor": tm.xor}.get(op)
        if g:
            if not checked:
                return lambda st, b: g(w, fa(st, b), fb(st, b))
            if sg:
                so = op.lower()

                def ck(st, b):
                    x, y = fa(st, b), fb(st, b)
                    return (g(w, x, y), tm.sarith_o(so, w, x, y))
                return ck
            o = {"Add": tm.uaddo, "Sub": lambda w, x, y: tm.ult(w, x, y), "Mul": tm.umulo}[op]

            def ck2(st, b):
                x, y = fa(st, b), fb(st, b)
                return (g(w, x, y), o(w, x, y))
            return ck2
        if op in ("Shl", "Shr"):
            bw = p.bits(self.op_ty(fn, b2))
            h = tm.shl if op == "Shl" else (tm.ashr if sg else tm.lshr)

            def sh(st, b):
                x, y = fa(st, b), fb(st, b)
                if isinstance(y, T):
                    ovf = tm.not_b(tm.ult(bw, y, w))
                    y = tm.and_(bw, y, w - 1)
                    y = tm.zext(w, y, bw) if bw < w else (tm.trunc(w, y, bw) if bw > w else y)
                else:
                    ovf = int(y >= w)
                    y &= w - 1
                v = h(w, x, y)
                return (v, ovf) if checked else v
            return sh
        if op in ("Div", "Rem"):
            if sg:
                def sd(st, b):
                    x, y = fa(st, b), fb(st, b)
                    if not isinstance(x, T) and not isinstance(y, T):
                        sx, sy = tm.tosigned(w, x), tm.tosigned(w, y)
                        q = abs(sx) // abs(sy)
                        if (sx < 0) != (sy < 0):
                            q = -q
                        return (q if op == "Div" else sx - q * sy) & tm.mask(w)
                    if tm.hi(x) < 1 << (w - 1) and tm.hi(y) < 1 << (w - 1):
                        return (tm.udiv if op == "Div" else tm.urem)(w, x, y)
                    if not isinstance(y, T) and 0 < y < 1 << (w - 1):
                        # truncated towards zero
                        ng = tm.slt(w, x, 0)
                        h = tm.udiv if op == "Div" else tm.urem
                        q = h(w, tm.ite(w, ng, tm.sub(w, 0, x), x), y)
                        return tm.ite(w, ng, tm.sub(w, 0, q), q)
                    raise Unsupported("signed division")
                return sd
            h = tm.udiv if op == "Div" else tm.urem
            return lambda st, b: h(w, fa(st, b), fb(st, b))
        lt = tm.slt if sg else tm.ult
        if op == "Eq":
            return lambda st, b: tm.eq(w, fa(st, b), fb(st, b))
        if op == "Ne":
            return lambda st, b: tm.not_b(tm.eq(w, fa(st, b), fb(st, b)))
        if op == "Lt":
            return lambda st, b: lt(w, fa(st, b), fb(st, b))
        if op == "Ge":
            return lambda st, b: tm.not_b(lt(w, fa(st, b), fb(st, b)))
        if op == "Gt":
            return lambda st, b: lt(w, fb(st, b), fa(st, b))
        if op == "Le":
            return lambda st, b: tm.not_b(lt(w, fb(st, b), fa(st, b)))
        if op == "Cmp":
            def cmp(st, b):
                x, y = fa(st, b), fb(st, b)
                l, e = lt(w, x, y), tm.eq(w, x, y)
                d = tm.ite(8, l, 0, tm.ite(8, e, 1, 2))
                return E(d, {0: (), 1: (), 2: ()})
            return cmp
        raise Unsupported("binop %s" % op)

    def ptrcmp(self, op, x, y):
        while isinstance(x, tuple) and len(x) == 1:
            x = x[0]
        while isinstance(y, tuple) and len(y) == 1:
            y = y[0]
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            raise Unsupported("fn pointer comparison")
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            same = x.a == y.a and x.p == y.p
            if same:
                xo, yo = x.off, y.off
                if op == "Eq":
                    return tm.eq(64, xo, yo)
                if op == "Ne":
                    return tm.not_b(tm.eq(64, xo, yo))
                if op == "Lt":
                    return tm.ult(64, xo, yo)
                if op == "Ge":
                    return tm.not_b(tm.ult(64, xo, yo))
                if op == "Gt":
                    return tm.ult(64, yo, xo)
                return tm.not_b(tm.ult(64, yo, xo))
            if op == "Eq":
                return 0
            if op == "Ne":
                return 1
            raise Unsupported("ordering of unrelated pointers")
        if isinstance(x, int) and isinstance(y, int):
            return {"Eq": int(x == y), "Ne": int(x != y), "Lt": int(x < y), "Le": int(x <= y), "Gt": int(x > y), "Ge": int(x >= y)}[op]
        if op == "Eq":
            return 0
        if op == "Ne":
            return 1
        raise Unsupported("pointer comparison")

    def c_cast(self, fn, ck, a, tty):
        p = self.prog
        fa = self.c_operand(fn, a)
        fty = self.op_ty(fn, a)
        kk = ck if isinstance(ck, str) else pkind(ck)
        if kk == "IntToInt":
            fs = p.strip(fty)
            if p.is_enum(fs):
                tw = p.bits(tty)
                dm = [p.discr(fs, v) & tm.mask(tw) for v in range(len(p.types[fs]["variants"]))]

                def ec(st, b):
                    d = fa(st, b).d
                    if isinstance(d, int):
                        return dm[d]
                    r = dm[-1]
                    for i in range(len(dm) - 2, -1, -1):
                        r = tm.ite(tw, tm.eq(8, d, i), dm[i], r)
                    return r
                return ec
            fw, tw = p.bits(fty), p.bits(tty)
            sg = p.signed(fty)
            if tw == fw:
                return fa
            if tw < fw:
                return lambda st, b: tm.trunc(tw, fa(st, b), fw)
            if sg:
                return lambda st, b: tm.sext(tw, fa(st, b), fw)
            return lambda st, b: tm.zext(tw, fa(st, b), fw)
        if kk == "PointerCoercion":
            sub = ck["PointerCoercion"]
            if sub == "Unsize":
                return self.c_unsize(fn, fa, fty, tty)
            return fa
        if kk == "PtrToPtr":
            return self.c_ptrcast(fa, fty, tty)
        if kk == "BoxDerefTransmute":
            def bx(st, b):
                v = fa(st, b)
                while isinstance(v, tuple):
                    v = v[0]
                return v
            return bx
        if kk == "Transmute":
            return lambda st, b: self.transmute(fa(st, b), fty, tty)
        if kk in ("PointerExposeAddress", "PointerExposeProvenance"):
            return fa
        if kk in ("PointerWithExposedProvenance", "PointerFromExposedAddress"):
            return fa
        if kk == "Subtype":
            return fa
        raise Unsupported("cast %r" % (ck,))

    def c_unsize(self, fn, fa, fty, tty):
        p = self.prog
        f, t = p.types[p.strip(fty)], p.types[p.strip(tty)]

        def inner(i):
            x = p.types[p.strip(i)]
            return x.get("to") if x["k"] in ("Ref", "RawPtr") else None
        fi, ti = inner(fty), inner(tty)
        if fi is not None:
            tk = p.types[ti]["k"]
            if tk == "Slice":
                n = p.arr(fi)[1]
                ety = p.types[ti]["elem"]

                def us(st, b):
                    v = fa(st, b)
                    if v.mode == 2:
                        return Ptr(v.a, v.p, 1, v.off, n)
                    if v.mode == 1:
                        # pointer to an array that is itself an element
                        return Ptr(v.a, v.p + (v.off,), 1, 0, n)
                    return Ptr(v.a, v.p, 1, 0, n)
                return us
            if tk == "Dynamic":
                def ud(st, b):
                    v = fa(st, b)
                    return Ptr(v.a, v.p, v.mode, v.off, ("dyn", fi, v.meta), v.view)
                return ud
        # smart pointers (Box<[T;N]> -> Box<[T]>)
        def ub(st, b):
            v = fa(st, b)
            return self.unsize_box(v, fty, tty)
        return ub

    def unsize_box(self, v, fty, tty):
        p = self.prog
        tf = p.types[p.strip(fty)]["targs"][0]
        tt = p.types[p.strip(tty)]["targs"][0]
        if p.types[tt]["k"] == "Slice":
            n = p.arr(tf)[1]

            def go(x):
                if isinstance(x, Ptr):
                    if x.mode == 1 and x.meta is None:
                        return Ptr(x.a, x.p + (x.off,), 1, 0, n)
                    return Ptr(x.a, x.p, 1, x.off if x.mode == 2 else 0, n)
                if isinstance(x, tuple):
                    return tuple(go(y) for y in x)
                return x
            return go(v)
        raise Unsupported("unsize %s" % p.types[p.strip(fty)]["name"])

    def c_ptrcast(self, fa, fty, tty):
        p = self.prog
        f, t = p.types[p.strip(fty)], p.types[p.strip(tty)]
        A, B = f.get("to"), t.get("to")
        if A is None or B is None:
            return fa

        def cast(st, b):
            return self.ptrcast(fa(st, b), A, B)
        return cast

    def ptrcast(self, v, A, B):
        p = self.prog
        if not isinstance(v, Ptr):
            return v
        A, B = p.strip(A), p.strip(B)
        ka, kb = p.tkey(A), p.tkey(B)
        ta, tb = p.types[A], p.types[B]
        if ka == kb:
            return v
        if tb["k"] in ("Slice", "Str") and ta["k"] in ("Slice", "Str"):
            return v
        if ta["k"] in ("Slice", "Str"):
            # drop metadata
            w = Ptr(v.a, v.p, 1, v.off, None)
            el = ta.get("elem")
            if el is not None and p.tkey(el) != kb:
                arrb = p.arr(B)
                if arrb and p.tkey(arrb[0]) == p.tkey(el):
                    return Ptr(v.a, v.p, 2, v.off, None, arrb[1])
                return self.ptrcast(w, el, B)
            return w
        aa, ab = p.arr(A), p.arr(B)
        if aa and p.tkey(aa[0]) == kb:
            if v.mode == 2:
                return Ptr(v.a, v.p, 1, v.off)
            if v.mode == 1:
                return Ptr(v.a, v.p + (v.off,), 1, 0)
            return Ptr(v.a, v.p, 1, 0)
        if ab and p.tkey(ab[0]) == ka:
            if v.mode == 1:
                return Ptr(v.a, v.p, 2, v.off, None, ab[1])
            if v.mode == 0:
                # pointer to the first field/element of something bigger
                if v.p and isinstance(v.p[-1], int) and v.p[-1] >= 0:
                    return Ptr(v.a, v.p[:-1], 2, v.p[-1], None, ab[1])
        if aa and ab and p.tkey(aa[0]) == p.tkey(ab[0]):
            if v.mode == 0:
                return Ptr(v.a, v.p, 2, 0, None, ab[1])
            if v.mode == 2:
                return Ptr(v.a, v.p, 2, v.off, None, ab[1])
        # first-field chains
        x, n = A, 0
        while p.types[x]["k"] in ("Adt", "Tuple", "Closure") and not p.is_enum(x) and not p.is_ga(x):
            fs = p.fields(x)
            nz = [i for i, q in enumerate(fs) if p.types[q]["size"] != 0]
            if len(nz) < 1:
                break
            i = nz[0]
            if p.offsets(p.types[x])[i] != 0:
                z = [j for j in nz if p.offsets(p.types[x])[j] == 0]
                if not z:
                    break
                i = z[0]
            pl = self.place_field(self.deref(v), i)
            v2 = self.ptr_of(pl)
            x = p.strip(fs[i])
            v = v2
            if p.tkey(x) == kb:
                return v
            a2 = p.arr(x)
            if a2 and p.tkey(a2[0]) == kb:
                return Ptr(v.a, v.p, 1, 0)
        if x != A:
            pass
        # wrapper around A: strip zero fields
        x = B
        depth = 0
        while p.types[x]["k"] in ("Adt", "Tuple") and not p.is_enum(x) and not p.is_ga(x):
            fs = p.fields(x)
            nz = [i for i, q in enumerate(fs) if p.types[q]["size"] != 0]
            if len(nz) != 1:
                break
            depth += 1
            x = p.strip(fs[nz[0]])
            if p.tkey(x) == ka and v.mode == 0 and len(v.p) >= depth:
                return Ptr(v.a, v.p[:-depth])
        return v

    # transmute: structural
    def leaves(self, ty, v, out):
        p = self.prog
        ty = p.strip(ty)
        t = p.types[ty]
        a = p.arr(ty)
        if a:
            if v is UNDEF:
                v = (UNDEF,) * a[1]
            for x in v:
                self.leaves(a[0], x, out)
            return
        if t["k"] in ("Tuple", "Closure") or (t["k"] == "Adt" and t["adtkind"] == "Struct"):
            if isinstance(v, Abstract):
                out.append((ty, v))
                return
            fs = p.fields(ty)
            offs = p.offsets(t) if fs else []
            if v is UNDEF:
                v = (UNDEF,) * len(fs)
            for i in sorted(range(len(fs)), key=lambda i: offs[i]):
                if p.types[fs[i]]["size"]:
                    self.leaves(fs[i], v[i], out)
            return
        out.append((ty, v))

    def build(self, ty, it):
        p = self.prog
        ty = p.strip(ty)
        t = p.types[ty]
        a = p.arr(ty)
        if a:
            return tuple(self.build(a[0], it) for _ in range(a[1]))
        if t["k"] in ("Tuple", "Closure") or (t["k"] == "Adt" and t["adtkind"] == "Struct"):
            nxt = it.peek()
            if isinstance(nxt, Abstract):
                return it.take(t["size"])
            fs = p.fields(ty)
            offs = p.offsets(t) if fs else []
            r = [None] * len(fs)
            for i in sorted(range(len(fs)), key=lambda i: offs[i]):
                r[i] = self.build(fs[i], it) if p.types[fs[i]]["size"] else self.zst(fs[i])
            return tuple(r)
        v = it.take(t["size"])
        if p.is_enum(ty) and isinstance(v, (int, T)):
            if isinstance(v, int):
                for i in range(len(t["variants"])):
                    if p.discr(ty, i) & tm.mask(8 * t["size"]) == v:
                        return E(i, {i: ()})
                # Option<NonZero>-like niche
                if v == 0 and t["adt"].endswith("Option"):
                    return E(0, {0: ()})
            raise Unsupported("transmute to enum %s" % t["name"])
        return v

    def transmute(self, v, fty, tty):
        p = self.prog
        if p.tkey(fty) == p.tkey(tty):
            return v
        f, t = p.types[p.strip(fty)], p.types[p.strip(tty)]
        if f["k"] in ("Ref", "RawPtr") and t["k"] in ("Ref", "RawPtr") and isinstance(v, Ptr):
            return self.ptrcast(v, f["to"], t["to"])
        if p.is_enum(p.strip(fty)) and isinstance(v, E) and t["k"] in ("Uint", "Int"):
            w = p.bits(tty)
            if isinstance(v.d, int):
                return p.discr(p.strip(fty), v.d) & tm.mask(w)
            r = None
            for i in range(len(f["variants"]) - 1, -1, -1):
                dv = p.discr(p.strip(fty), i) & tm.mask(w)
                r = dv if r is None else tm.ite(w, tm.eq(8, v.d, i), dv, r)
            return r
        if p.is_enum(p.strip(tty)) and isinstance(v, (int, T)) and t["adt"].endswith("Option") is False and isinstance(v, T):
            # byte -> fieldless enum
            tyi = p.strip(tty)
            w = p.bits(fty)
            n = len(t["variants"])
            d = 0
            for i in range(n):
                d = tm.ite(8, tm.eq(w, v, p.discr(tyi, i) & tm.mask(w)), i, d)
            return E(d, {i: () for i in range(n)})
        out = []
        self.leaves(fty, v, out)
        eng = self

        class It:
            def __init__(s):
                s.q = list(out)

            def peek(s):
                return s.q[0][1] if s.q else None

            def take(s, size):
                if not s.q:
                    raise Unsupported("transmute size")
                ty0, v0 = s.q[0]
                sz = p.types[ty0]["size"]
                if sz == size:
                    s.q.pop(0)
                    return v0
                if sz < size and isinstance(v0, (int, T)):
                    # little endian composition
                    acc, got = 0, 0
                    while got < size:
                        ty1, v1 = s.q.pop(0)
                        z = p.types[ty1]["size"]
                        acc = tm.or_(8 * size, acc, tm.shl(8 * size, tm.zext(8 * size, v1, 8 * z), 8 * got))
                        got += z
                    return acc
                if sz > size and isinstance(v0, (int, T)):
                    s.q.pop(0)
                    parts = []
                    tyb = next(i for i, q in p.types.items() if q["k"] == "Uint" and q["size"] == size)
                    for j in range(sz // size):
                        parts.append((tyb, tm.trunc(8 * size, tm.lshr(8 * sz, v0, 8 * size * j), 8 * sz)))
                    s.q[0:0] = parts[1:]
                    return parts[0][1]
                raise Unsupported("transmute %s -> %s" % (p.types[fty]["name"], p.types[tty]["name"]))
        return self.build(tty, It())

    # ------------------------------------------------------------- execution
    def where(self):
        return [s for s in self.stack[-6:]]

    def panic(self, st, msg):
        self.panics.append((st.pc, tuple(self.stack[-8:]), msg, st.aux))
        return Outcomes()

    def feasible(self, st):
        if self.feas is None:
            return True
        return self.feas(st.pc) != "unsat"

    def find_override(self, sym, callee):
        if sym in self.ovcache:
            return self.ovcache[sym]
        name = callee["name"]
        r = None
        for tab in self.ov:
            if name in tab.exact:
                r = tab.exact[name]
                break
            d = callee.get("def")
            for rx, f in tab.rx:
                if rx.fullmatch(name):
                    r = f
                    break
            if r:
                break
        if r is None and callee.get("intrinsic"):
            from . import stdov
            r = stdov.intrinsic(callee["intrinsic"])
        self.ovcache[sym] = r
        return r

    def call(self, st, sym, args, callee=None):
        """-> list of (state, value)"""
        if callee is None:
            f = self.prog.fn(sym)
            callee = {"name": f.name if f else sym, "sym": sym, "targs": []}
        ov = self.find_override(sym, callee)
        if ov is not None:
            n = callee["name"]
            pc0 = st.pc
            r = ov(self, st, args, callee)
            if r is not NotImplemented:
                self.used_ov[n] = self.used_ov.get(n, 0) + 1
                if self.ct is not None:
                    self.ct.override(self, st, pc0, n, args, r, ov)
                if isinstance(r, Outcomes):
                    return r
                return [(st, r)]
        if callee.get("empty_shim"):
            return [(st, ())]
        fn = self.prog.fn(sym)
        if fn is None:
            raise Unsupported("call to unknown %s" % callee["name"])
        return self.run_fn(st, fn, args)

    def run_fn(self, st, fn, args):
        if fn.blocks is None:
            if not fn.raw.get("blocks"):
                v = self.ctor(fn.name, args)
                if v is not None:
                    return [(st, v)]
            self.compile(fn)
        self.encoded[fn.name] = self.encoded.get(fn.name, 0) + 1
        fid = self.nextfid
        self.nextfid += 1
        self.framefn[fid] = fn
        b = fid << FB
        if fn.spread is not None:
            # args from `spread` on are passed as one tuple
            i = fn.spread - 1
            if len(args) != fn.nargs:
                args = list(args[:i]) + [tuple(args[i:])]
        elif fn.nargs is not None and len(args) != fn.nargs:
            if args and isinstance(args[-1], tuple) and len(args) - 1 + len(args[-1]) == fn.nargs:
                args = list(args[:-1]) + list(args[-1])
            else:
                raise Unsupported("arity of %s" % fn.name)
        for i, v in enumerate(args):
            st.mem[b + 1 + i] = v
        self.stack.append(fn.name)
        if len(self.stack) > 400:
            raise Unsupported("call depth")
        try:
            res = self.region(st, fn, b, 0, len(fn.blocks))
        finally:
            self.stack.pop()
        out = []
        n = len(fn.locals)
        nl = range(b + 1, b + n)
        for s in res:
            m = s.mem
            for k in nl:
                m.pop(k, None)
        if len(res) > 1:
            res = self.merge_states(res)
        for s in res:
            out.append((s, s.mem.pop(b, UNDEF)))
        return out

    def ctor(self, name, args):
        """a tuple struct or enum variant constructor used as a function"""
        for t in self.prog.types.values():
            if t.get("k") == "Adt":
                if t["adtkind"] == "Struct" and t["name"] == name and len(t["variants"][0]["fields"]) == len(args):
                    return tuple(args)
                if t["adtkind"] == "Enum":
                    for i, v in enumerate(t["variants"]):
                        if "%s::%s" % (t["name"], v["name"]) == name and len(v["fields"]) == len(args):
                            return E(i, {i: tuple(args)})
        return None

    def region(self, st, fn, b, blk, stop):
        """run from blk until `stop` (a block index; len(blocks) = return); list of states"""
        blocks = fn.blocks
        EXIT = len(blocks)
        while True:
            if blk == stop:
                return [st]
            if blk == EXIT:
                return [st]
            if self.cut is not None:
                st = self.cut(self, st, fn, b, blk)
                if st is None:
                    return []
            stm, t, line = blocks[blk]
            self.steps += len(stm) + 1
            if self.steps > self.max_steps:
                raise Unsupported("step limit")
            if self.deadline is not None and (self.steps & 1023) < len(stm) + 1:
                import time
                if time.time() > self.deadline:
                    raise Unsupported("time limit of the symbolic execution")
            try:
                for s in stm:
                    s(st, b)
            except Unsupported:
                raise
            except (IndexError, KeyError, AttributeError, TypeError) as e:
                raise Unsupported("%s in %s bb%d line %s: %s" % (type(e).__name__, fn.name, blk, line, e)) from e
            k = t if isinstance(t, str) else next(iter(t))
            if k == "Goto":
                blk = t["Goto"]["target"]
            elif k == "Return":
                blk = EXIT
            elif k == "SwitchInt":
                x = t["SwitchInt"]
                d = x.get("_c")
                if d is None:
                    d = x["_c"] = self.c_operand(fn, x["discr"])
                    x["_w"] = self.prog.bits(self.op_ty(fn, x["discr"]))
                v = d(st, b)
                tg = x["targets"]
                if isinstance(v, int):
                    for val, tb in tg["branches"]:
                        if val == v:
                            blk = tb
                            break
                    else:
                        blk = tg["otherwise"]
                    continue
                if not isinstance(v, T):
                    raise Unsupported("switch on %r in %s line %s" % (v, fn.name, line))
                w = x["_w"] or v.w
                alts = []
                neg = 1
                for val, tb in tg["branches"]:
                    c = tm.eq(v.w, v, val & tm.mask(v.w))
                    alts.append((tm.and_(1, neg, c), tb))
                    neg = tm.and_(1, neg, tm.not_b(c))
                alts.append((neg, tg["otherwise"]))
                # a boolean switch: avoid nested negations
                live = [(c, tb) for c, tb in alts if not (isinstance(c, int) and c == 0) and tb is not None]
                live = [(c, tb) for c, tb in live if blocks[tb][1] != "Unreachable" or blocks[tb][0]]
                if len(live) == 1:
                    blk = live[0][1]
                    continue
                soft = self.ct.switch(self, st, fn, blk, v, line) if self.ct is not None else None
                nst = []
                for i, (c, tb) in enumerate(live):
                    s2 = st.fork() if i < len(live) - 1 else st
                    s2.assume(c)
                    nst.append((s2, tb))
                if self.feas is not None:
                    ok = [(s2, tb) for s2, tb in nst if self.feasible(s2)]
                    if len(ok) == 1 and len(nst) > 1:
                        # the other branches are infeasible: the condition is implied
                        s2 = ok[0][0]
                        s2.pc = s2.pc[:-1]
                    nst = ok
                if not nst:
                    return []
                if len(nst) == 1:
                    st, blk = nst[0]
                    continue
                self.forks += 1
                ip = fn.ipdom.get(blk)
                res = []
                for s2, tb in nst:
                    if ip is None or tb not in fn.live:
                        res += self.region(s2, fn, b, tb, ip if ip is not None else EXIT)
                    else:
                        res += self.region(s2, fn, b, tb, ip)
                if not res:
                    return []
                if ip is None:
                    return res
                res = self.merge_states(res)
                if len(res) == 1:
                    st, blk = res[0], ip
                    continue
                if soft:
                    self.ct.record(st.pc, v, "%s:%s" % (fn.name, line), "branch")
                out = []
                for s2 in res:
                    out += self.region(s2, fn, b, ip, stop)
                return out
            elif k == "Assert":
                x = t["Assert"]
                d = x.get("_c")
                if d is None:
                    d = x["_c"] = self.c_operand(fn, x["cond"])
                v = d(st, b)
                exp = x["expected"]
                if isinstance(v, int):
                    if bool(v) != exp:
                        self.panic(st, "assert %s line %s in %s" % (pkind(x["msg"]), line, fn.name))
                        return []
                else:
                    c = v if exp else tm.not_b(v)
                    self.obligations.append((st.pc, c, "%s" % pkind(x["msg"]), "%s:%s" % (fn.name, line), st.aux))
                    if self.assume_asserts:
                        st.assume(c)
                blk = x["target"]
            elif k == "Call":
                x = t["Call"]
                ca = x.get("_a")
                if ca is None:
                    ca = x["_a"] = [self.c_operand(fn, o) for o in x["args"]]
                    dst = x["destination"]
                    x["_d"] = None if not dst["projection"] else self.c_place(fn, dst)
                    if x["callee"] is None:
                        x["_f"] = self.c_operand(fn, x["func"])
                args = [f(st, b) for f in ca]
                cal = x["callee"]
                if cal is None:
                    fv = x["_f"](st, b)
                    if not isinstance(fv, FnPtr):
                        raise Unsupported("indirect call in %s" % fn.name)
                    res = self.call(st, fv.sym, args)
                else:
                    if cal["kind"].startswith("Virtual"):
                        res = self.virtual(st, cal, args)
                    else:
                        try:
                            res = self.call(st, cal["sym"], args, cal)
                        except (IndexError, KeyError, AttributeError, TypeError) as e:
                            raise Unsupported("%s in call to %s from %s line %s: %s" % (type(e).__name__, cal["name"], fn.name, line, e)) from e
                tgt = x["target"]
                if tgt is None:
                    if res:
                        raise Unsupported("diverging call returned: %s" % cal["name"])
                    return []
                dl = x["destination"]["local"]
                dp = x["_d"]
                for s2, rv in res:
                    if dp is None:
                        s2.mem[b + dl] = rv
                    else:
                        self.put(s2, dp(s2, b), rv)
                if not res:
                    return []
                if len(res) == 1:
                    st, blk = res[0][0], tgt
                    continue
                ms = self.merge_states([s for s, _ in res])
                if len(ms) == 1:
                    st, blk = ms[0], tgt
                    continue
                out = []
                for s2 in ms:
                    out += self.region(s2, fn, b, tgt, stop)
                return out
            elif k == "Drop":
                blk = t["Drop"]["target"]
            elif k == "Unreachable":
                if self.feas is not None and not self.feasible(st):
                    return []
                self.panics.append((st.pc, tuple(self.stack[-8:]), "unreachable in %s" % fn.name, st.aux))
                return []
            else:
                raise Unsupported("terminator %s in %s" % (k, fn.name))

    def virtual(self, st, cal, args):
        from . import stdov
        r = stdov.virtual(self, st, cal, args)
        if isinstance(r, Outcomes):
            return r
        return [(st, r)]

    # concretisation of a symbolic integer (forks)
    def concretize(self, st, t, limit=200):
        """list of (state, int): all feasible values of t"""
        if not isinstance(t, T):
            return [(st, t)]
        if t.op == "ite":
            pass
        out = []
        lo, hi = t.lo, t.hi
        if hi - lo > 4096:
            raise Unsupported("concretise a wide term")
        for v in range(lo, hi + 1):
            s = st.fork()
            s.assume(tm.eq(t.w, t, v))
            if isinstance(tm.eq(t.w, t, v), int) and tm.eq(t.w, t, v) == 0:
                continue
            if self.feas is None or self.feas(s.pc) != "unsat":
                out.append((s, v))
                if len(out) > limit:
                    raise Unsupported("too many values")
        return out


class Table:
    """overrides: exact names and regexes"""

    def __init__(self):
        self.exact = {}
        self.rx = []

    def on(self, *pats):
        def deco(f):
            for p in pats:
                if p.startswith("/"):
                    self.rx.append((re.compile(p[1:]), f))
                else:
                    self.exact[p] = f
            return f
        return deco


def with_big_stack(f, *a, **k):
    """run f in a thread with a large stack"""
    res = {}

    def go():
        try:
            res["v"] = f(*a, **k)
        except BaseException as e:  # noqa
            res["e"] = e
    threading.stack_size(1 << 30)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    if "e" in res:
        raise res["e"]
    return res["v"]
