"""Hash-consed bit-vector terms.

A value of machine-integer type is either a Python int (concrete, unsigned representation)
or a T (symbolic).  Every T carries its width and an unsigned interval.  Booleans have
width 1.  The constructors fold constants and use the intervals; they never change meaning.
"""

MASK = {}
for _w in (1, 8, 16, 32, 64, 128):
    MASK[_w] = (1 << _w) - 1


def mask(w):
    m = MASK.get(w)
    if m is None:
        m = MASK[w] = (1 << w) - 1
    return m


class T:
    __slots__ = ("op", "a", "w", "lo", "hi", "id", "__weakref__")

    def __repr__(self):
        return show(self, 4)


_tab = {}
_cnt = [0]


def reset():
    _tab.clear()


def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if t.op == "var":
        return str(t.a[0])
    if depth == 0:
        return "#%d" % t.id
    return "%s(%s)" % (t.op, ",".join(show(x, depth - 1) if isinstance(x, (T, int)) else str(x) for x in t.a))


def _mk(op, w, a, lo=0, hi=None):
    if hi is None:
        hi = mask(w)
    key = (op, w) + tuple(x.id if isinstance(x, T) else ("k", x) for x in a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.w = w
        t.lo = lo
        t.hi = hi
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[key] = t
    return t


def var(name, w, lo=0, hi=None):
    return _mk("var", w, (name, lo, mask(w) if hi is None else hi), lo, hi)


def lo(x):
    return x.lo if isinstance(x, T) else x


def hi(x):
    return x.hi if isinstance(x, T) else x


def issym(x):
    return isinstance(x, T)


def _order(a, b):
    """constants last, otherwise by id (commutative ops)"""
    if not isinstance(a, T):
        return b, a
    if isinstance(b, T) and b.id < a.id:
        return b, a
    return a, b


def add(w, a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return (a + b) & mask(w)
    a, b = _order(a, b)
    if not isinstance(b, T):
        if b == 0:
            return a
        if a.op == "add" and not isinstance(a.a[1], T):
            return add(w, a.a[0], (a.a[1] + b) & mask(w))
    h = hi(a) + hi(b)
    l = lo(a) + lo(b)
    m = mask(w)
    if h > m:
        if l > m:
            l, h = l - m - 1, h - m - 1
        else:
            l, h = 0, m
    return _mk("add", w, (a, b), l, h)


def sub(w, a, b):
    if not isinstance(b, T):
        if not isinstance(a, T):
            return (a - b) & mask(w)
        if b == 0:
            return a
        l, h = a.lo - b, a.hi - b
        if l < 0:
            if h >= 0:
                l, h = 0, mask(w)
            else:
                l, h = l + mask(w) + 1, h + mask(w) + 1
        return _mk("sub", w, (a, b), l, h)
    if a is b:
        return 0
    if isinstance(a, T) and a.op == "add":
        if a.a[0] is b:
            return a.a[1]
        if a.a[1] is b:
            return a.a[0]
    l, h = lo(a) - b.hi, hi(a) - b.lo
    if l < 0:
        if h < 0:
            l, h = l + mask(w) + 1, h + mask(w) + 1
        else:
            l, h = 0, mask(w)
    return _mk("sub", w, (a, b), l, h)


def mul(w, a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return (a * b) & mask(w)
    a, b = _order(a, b)
    if not isinstance(b, T):
        if b == 0:
            return 0
        if b == 1:
            return a
    h = hi(a) * hi(b)
    l = lo(a) * lo(b)
    if h > mask(w):
        l, h = 0, mask(w)
    return _mk("mul", w, (a, b), l, h)


def udiv(w, a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a // b if b else mask(w)
    if b == 1:
        return a
    if not isinstance(b, T) and b and b & (b - 1) == 0:
        return lshr(w, a, b.bit_length() - 1)
    if not isinstance(b, T):
        return _mk("udiv", w, (a, b), a.lo // b, a.hi // b)
    return _mk("udiv", w, (a, b))


def urem(w, a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a % b if b else a
    if not isinstance(b, T) and b and b & (b - 1) == 0:
        return and_(w, a, b - 1)
    if not isinstance(b, T):
        if a.hi < b:
            return a
        return _mk("urem", w, (a, b), 0, b - 1)
    return _mk("urem", w, (a, b))


def and_(w, a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a & b
    a, b = _order(a, b)
    if not isinstance(b, T):
        if b == 0:
            return 0
        if b == mask(w):
            return a
        if b & (b + 1) == 0 and a.hi <= b:
            return a
        if a.op == "and" and not isinstance(a.a[1], T):
            return and_(w, a.a[0], a.a[1] & b)
        if a.op in ("zext",) and b & mask(a.a[0].w) == mask(a.a[0].w):
            return a
        if b & (b + 1) == 0 and a.lo >> b.bit_length() == a.hi >> b.bit_length():
            return _mk("and", w, (a, b), a.lo & b, a.hi & b)
        return _mk("and", w, (a, b), 0, min(a.hi, b))
    if a is b:
        return a
    if w == 1:
        if (a.op == "xor" and a.a[0] is b and a.a[1] == 1) or (b.op == "xor" and b.a[0] is a and b.a[1] == 1):
            return 0
        for x, y in ((a, b), (b, a)):
            # c & (p + [c] == 0)  is the carry out of p + [c]
            z = y if y.op == "eq" and y.a[1] == 0 else None
            if z is None and y.op == "eq" and not isinstance(y.a[1], T):
                continue
            if z is not None:
                s = z.a[0]
                if isinstance(s, T) and s.op == "add":
                    for p, q in ((s.a[0], s.a[1]), (s.a[1], s.a[0])):
                        if isinstance(q, T) and q.op == "ite" and q.a[0] is x and q.a[1] == 1 and q.a[2] == 0:
                            return uaddo(s.w, p, q)
        # absorption: a & (a & x)
        if b.op == "and" and (b.a[0] is a or b.a[1] is a):
            return b
        if a.op == "and" and (a.a[0] is b or a.a[1] is b):
            return a
    return _mk("and", w, (a, b), 0, min(a.hi, b.hi))


def or_(w, a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a | b
    a, b = _order(a, b)
    if not isinstance(b, T):
        if b == 0:
            return a
        if b == mask(w):
            return b
    elif a is b:
        return a
    if w == 1 and isinstance(b, T):
        if (a.op == "xor" and a.a[0] is b and a.a[1] == 1) or (b.op == "xor" and b.a[0] is a and b.a[1] == 1):
            return 1
        # (p & c) | (p & !c) = p
        if a.op == "and" and b.op == "and":
            for i in (0, 1):
                for j in (0, 1):
                    if a.a[i] is b.a[j]:
                        p, q = a.a[1 - i], b.a[1 - j]
                        if not_b(p) is q or not_b(q) is p:
                            return a.a[i]
    bl = max(hi(a).bit_length(), hi(b).bit_length())
    return _mk("or", w, (a, b), max(lo(a), lo(b)), (1 << bl) - 1)


def xor(w, a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a ^ b
    a, b = _order(a, b)
    if not isinstance(b, T):
        if b == 0:
            return a
        if a.op == "xor" and not isinstance(a.a[1], T):
            return xor(w, a.a[0], a.a[1] ^ b)
        if w == 1:
            # negated comparisons stay as xor(x,1)
            pass
        if b == mask(w):
            return _mk("xor", w, (a, b), b - a.hi, b - a.lo)
    elif a is b:
        return 0
    bl = max(hi(a).bit_length(), hi(b).bit_length())
    return _mk("xor", w, (a, b), 0, (1 << bl) - 1)


def not_(w, a):
    return xor(w, a, mask(w))


def not_b(a):
    if not isinstance(a, T):
        return 1 - a
    return xor(1, a, 1)


def shl(w, a, k):
    """k is an int or T with value < w (the caller has masked it)"""
    if isinstance(k, T):
        if k.lo == k.hi:
            k = k.lo
        else:
            return _mk("shl", w, (a, k))
    if k == 0:
        return a
    if not isinstance(a, T):
        return (a << k) & mask(w)
    h = a.hi << k
    if h > mask(w):
        return _mk("shl", w, (a, k), 0, mask(w) ^ ((1 << k) - 1))
    return _mk("shl", w, (a, k), a.lo << k, h)


def lshr(w, a, k):
    if isinstance(k, T):
        if k.lo == k.hi:
            k = k.lo
        else:
            return _mk("lshr", w, (a, k), 0, hi(a) >> k.lo)
    if k == 0:
        return a
    if not isinstance(a, T):
        return a >> k
    if a.hi >> k == a.lo >> k:
        return a.hi >> k
    if a.op == "lshr" and not isinstance(a.a[1], T):
        return lshr(w, a.a[0], min(a.a[1] + k, w))
    return _mk("lshr", w, (a, k), a.lo >> k, a.hi >> k)


def ashr(w, a, k):
    if not isinstance(a, T) and not isinstance(k, T):
        s = a - (1 << w) if a >> (w - 1) else a
        return (s >> k) & mask(w)
    if hi(a) < 1 << (w - 1):
        return lshr(w, a, k)
    return _mk("ashr", w, (a, k))


def zext(w, a, w0):
    if not isinstance(a, T):
        return a
    if w == w0:
        return a
    if a.op == "zext":
        a = a.a[0]
    if a.op == "trunc" and a.a[0].w == w and a.a[0].hi <= mask(w0):
        return a.a[0]
    return _mk("zext", w, (a,), a.lo, a.hi)


def sext(w, a, w0):
    if not isinstance(a, T):
        return a if a < 1 << (w0 - 1) else (a - (1 << w0)) & mask(w)
    if w == w0:
        return a
    if a.hi < 1 << (w0 - 1):
        return zext(w, a, w0)
    return _mk("sext", w, (a,))


def trunc(w, a, w0):
    if not isinstance(a, T):
        return a & mask(w)
    if w == w0:
        return a
    if a.op in ("zext", "sext"):
        b = a.a[0]
        if b.w == w:
            return b
        if b.w > w:
            return trunc(w, b, b.w)
        return (zext if a.op == "zext" else sext)(w, b, b.w)
    if a.op == "trunc":
        return trunc(w, a.a[0], a.a[0].w)
    if a.op == "and" and not isinstance(a.a[1], T) and a.a[1] & mask(w) == mask(w):
        return trunc(w, a.a[0], w0)
    m = mask(w)
    if a.hi <= m:
        return _mk("trunc", w, (a,), a.lo, a.hi)
    return _mk("trunc", w, (a,))


def eq(w, a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return int(a == b)
    if a is b:
        return 1
    a, b = _order(a, b)
    if hi(a) < lo(b) or hi(b) < lo(a):
        return 0
    if w == 1:
        if not isinstance(b, T):
            return a if b == 1 else not_b(a)
        return not_b(xor(1, a, b))
    if not isinstance(b, T):
        if a.op == "zext":
            return eq(a.a[0].w, a.a[0], b)
        if a.op == "ite":
            c, x, y = a.a
            if not isinstance(x, T) and not isinstance(y, T):
                if x == b:
                    return c if y != b else 1
                return not_b(c) if y == b else 0
        if a.op == "add" and not isinstance(a.a[1], T):
            return eq(w, a.a[0], (b - a.a[1]) & mask(w))
        if a.op == "sub" and not isinstance(a.a[1], T):
            return eq(w, a.a[0], (b + a.a[1]) & mask(w))
        if a.op == "xor" and not isinstance(a.a[1], T):
            return eq(w, a.a[0], b ^ a.a[1])
    return _mk("eq", 1, (a, b))


def ult(w, a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return int(a < b)
    if a is b:
        return 0
    if hi(a) < lo(b):
        return 1
    if lo(a) >= hi(b):
        return 0
    if isinstance(a, T) and a.op == "zext" and (not isinstance(b, T) or (b.op == "zext" and b.a[0].w == a.a[0].w)):
        bb = b if not isinstance(b, T) else b.a[0]
        if isinstance(bb, T) or bb <= mask(a.a[0].w):
            return ult(a.a[0].w, a.a[0], bb)
    if isinstance(b, T) and b.op == "zext" and not isinstance(a, T):
        return ult(b.a[0].w, a, b.a[0])
    return _mk("ult", 1, (a, b))


def ule(w, a, b):
    return not_b(ult(w, b, a))


def tosigned(w, a):
    return a - (1 << w) if a >> (w - 1) else a


def slt(w, a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return int(tosigned(w, a) < tosigned(w, b))
    if a is b:
        return 0
    half = 1 << (w - 1)
    if hi(a) < half and hi(b) < half:
        return ult(w, a, b)
    # interval of signed values where determinable
    def rng(x):
        l, h = lo(x), hi(x)
        if h < half:
            return l, h
        if l >= half:
            return l - 2 * half, h - 2 * half
        return -half, half - 1
    la, ha = rng(a)
    lb, hb = rng(b)
    if ha < lb:
        return 1
    if la >= hb:
        return 0
    return _mk("slt", 1, (a, b))


def ite(w, c, x, y):
    if not isinstance(c, T):
        return x if c else y
    if x is y or (not isinstance(x, T) and not isinstance(y, T) and x == y):
        return x
    if c.op == "xor" and c.a[1] == 1:
        return ite(w, c.a[0], y, x)
    if w == 1:
        if x == 1 and not isinstance(x, T):
            return c if (not isinstance(y, T) and y == 0) else or_(1, c, y)
        if x == 0 and not isinstance(x, T):
            return not_b(c) if (not isinstance(y, T) and y == 1) else and_(1, not_b(c), y)
        if y == 0 and not isinstance(y, T):
            return and_(1, c, x)
        if y == 1 and not isinstance(y, T):
            return or_(1, not_b(c), x)
    if isinstance(x, T) and x.op == "ite" and not isinstance(y, T) and not isinstance(x.a[2], T) and x.a[2] == y:
        return ite(w, and_(1, c, x.a[0]), x.a[1], y)
    if isinstance(x, T) and x.op == "ite" and x.a[0] is c:
        x = x.a[1]
    if isinstance(y, T) and y.op == "ite" and y.a[0] is c:
        y = y.a[2]
    return _mk("ite", w, (c, x, y), min(lo(x), lo(y)), max(hi(x), hi(y)))


def uaddo(w, a, b):
    if hi(a) + hi(b) <= mask(w):
        return 0
    if lo(a) + lo(b) > mask(w):
        return 1
    a, b = _order(a, b)
    return _mk("uaddo", 1, (a, b, w))


def umulo(w, a, b):
    if hi(a) * hi(b) <= mask(w):
        return 0
    if lo(a) * lo(b) > mask(w):
        return 1
    a, b = _order(a, b)
    return _mk("umulo", 1, (a, b, w))


def srange(w, x):
    half = 1 << (w - 1)
    l, h = lo(x), hi(x)
    if h < half:
        return l, h
    if l >= half:
        return l - 2 * half, h - 2 * half
    return -half, half - 1


def sarith_o(op, w, a, b):
    """signed overflow of add/sub/mul"""
    la, ha = srange(w, a)
    lb, hb = srange(w, b)
    if op == "add":
        l, h = la + lb, ha + hb
    elif op == "sub":
        l, h = la - hb, ha - lb
    else:
        c = [la * lb, la * hb, ha * lb, ha * hb]
        l, h = min(c), max(c)
    half = 1 << (w - 1)
    if -half <= l and h < half:
        return 0
    if h < -half or l >= half:
        return 1
    return _mk("s%so" % op, 1, (a, b, w))


def bigge(limbs, const, lw=32):
    """the little-endian limbs, read as one integer, are >= const"""
    if all(not isinstance(x, T) for x in limbs):
        return int(sum(x << (lw * i) for i, x in enumerate(limbs)) >= const)
    return _mk("bigge", 1, tuple(limbs) + (const, lw))


def conj(xs):
    r = 1
    for x in xs:
        r = and_(1, r, x)
    return r


def eval_term(t, env, memo=None):
    """evaluate under env: var name -> int"""
    if not isinstance(t, T):
        return t
    memo = {} if memo is None else memo
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x.op == "var":
            memo[x.id] = env.get(x.a[0], 0) & mask(x.w)
            stack.pop()
            continue
        todo = [y for y in x.a if isinstance(y, T) and y.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        v = [memo[y.id] if isinstance(y, T) else y for y in x.a]
        memo[x.id] = _ev(x, v)
        stack.pop()
    return memo[t.id]


def _wid(x, i):
    return x.a[i].w


def _ev(x, v):
    op, w = x.op, x.w
    m = mask(w)
    if op == "add":
        return (v[0] + v[1]) & m
    if op == "sub":
        return (v[0] - v[1]) & m
    if op == "mul":
        return (v[0] * v[1]) & m
    if op == "udiv":
        return v[0] // v[1] if v[1] else m
    if op == "urem":
        return v[0] % v[1] if v[1] else v[0]
    if op == "and":
        return v[0] & v[1]
    if op == "or":
        return v[0] | v[1]
    if op == "xor":
        return v[0] ^ v[1]
    if op == "shl":
        return (v[0] << v[1]) & m
    if op == "lshr":
        return v[0] >> v[1]
    if op == "ashr":
        return ashr(w, v[0], v[1])
    if op == "zext":
        return v[0]
    if op == "sext":
        return sext(w, v[0], _wid(x, 0))
    if op == "trunc":
        return v[0] & m
    if op == "eq":
        return int(v[0] == v[1])
    if op == "ult":
        return int(v[0] < v[1])
    if op == "slt":
        ww = x.a[0].w if isinstance(x.a[0], T) else x.a[1].w
        return int(tosigned(ww, v[0]) < tosigned(ww, v[1]))
    if op == "ite":
        return v[1] if v[0] else v[2]
    if op == "bigge":
        return int(sum(y << (v[-1] * i) for i, y in enumerate(v[:-2])) >= v[-2])
    if op == "uaddo":
        return int(v[0] + v[1] > mask(v[2]))
    if op == "umulo":
        return int(v[0] * v[1] > mask(v[2]))
    if op in ("saddo", "ssubo", "smulo"):
        w = v[2]
        a, b = tosigned(w, v[0]), tosigned(w, v[1])
        r = a + b if op == "saddo" else a - b if op == "ssubo" else a * b
        return int(not (-(1 << (w - 1)) <= r < 1 << (w - 1)))
    raise NotImplementedError(op)


def subst(t, m):
    """t with the terms whose ids are in m replaced by the values given there (m also memoises)"""
    if not isinstance(t, T):
        return t
    r = m.get(t.id)
    if r is not None:
        return r
    op, a = t.op, t.a
    if op == "var":
        r = t
    else:
        b = tuple(subst(x, m) if isinstance(x, T) else x for x in a)
        if all(x is y for x, y in zip(a, b)):
            r = t
        else:
            aw = next((x.w for x in a if isinstance(x, T)), None)
            f = {"add": add, "sub": sub, "mul": mul, "udiv": udiv, "urem": urem, "and": and_, "or": or_, "xor": xor,
                 "shl": shl, "lshr": lshr, "ashr": ashr, "ite": ite}.get(op)
            if f:
                r = f(t.w, *b)
            elif op in ("zext", "sext", "trunc"):
                r = {"zext": zext, "sext": sext, "trunc": trunc}[op](t.w, b[0], aw)
            elif op in ("eq", "ult", "slt"):
                r = {"eq": eq, "ult": ult, "slt": slt}[op](aw, b[0], b[1])
            elif op == "uaddo":
                r = uaddo(a[2], b[0], b[1])
            elif op == "umulo":
                r = umulo(a[2], b[0], b[1])
            elif op in ("saddo", "ssubo", "smulo"):
                r = sarith_o(op[1:-1], a[2], b[0], b[1])
            elif op == "bigge":
                r = bigge(list(b[:-2]), b[-2], b[-1])
            else:
                raise NotImplementedError("subst " + op)
    m[t.id] = r
    return r
