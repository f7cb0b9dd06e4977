"""Loads the MIR dump and answers questions about types, layouts and constants."""
import json
import re

TRANSPARENT = {
    "std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::mem::MaybeDangling", "core::mem::MaybeUninit",
    "std::cell::UnsafeCell",
}


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class E:
    """enum value: d = variant index (int or T of width 8); f = {variant: tuple of fields}"""
    __slots__ = ("d", "f")

    def __init__(self, d, f):
        self.d = d
        self.f = f

    def __repr__(self):
        return "E(%r,%r)" % (self.d, self.f)

    def __eq__(self, o):
        return isinstance(o, E) and self.d == o.d and self.f == o.f

    __hash__ = None


class Ptr:
    """mode 0: the object at path; 1: element off of the array at path; 2: view of length
    `view` starting at off.  meta: slice length or vtable."""
    __slots__ = ("a", "p", "mode", "off", "meta", "view")

    def __init__(self, a, p=(), mode=0, off=0, meta=None, view=None):
        self.a, self.p, self.mode, self.off, self.meta, self.view = a, p, mode, off, meta, view

    def __repr__(self):
        return "Ptr(%r,%r,m%d,%r,meta=%r,view=%r)" % (self.a, self.p, self.mode, self.off, self.meta, self.view)

    def key(self):
        return (self.a, self.p, self.mode, self.off, self.meta, self.view)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class FnPtr:
    def __init__(self, sym, name=None):
        self.sym = sym
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.sym == self.sym

    def __hash__(self):
        return hash(self.sym)

    def __repr__(self):
        return "FnPtr(%s)" % self.sym


class Unsupported(Exception):
    pass


class Fn:
    __slots__ = ("sym", "name", "nargs", "locals", "spread", "raw", "blocks", "ipdom", "live", "file", "line", "kind")


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = {int(k): v for k, v in d["types"].items()}
        self.rawfns = d["fns"]
        self.allocs = {int(k): v for k, v in d["allocs"].items()}
        self.roots = d["roots"]
        self.fns = {}
        self.byname = {}
        for s, f in self.rawfns.items():
            self.byname.setdefault(f["name"], s)
        self._tk = {}
        self._names = {}

    def find(self, pat, unique=True):
        """symbol of the function whose name equals pat or matches it as a regex"""
        if pat in self.byname:
            return self.byname[pat]
        r = re.compile(pat)
        c = sorted(n for n in self.byname if r.fullmatch(n))
        if not c:
            raise Unsupported("no function matches %s" % pat)
        if len(c) > 1 and unique:
            raise Unsupported("several functions match %s: %s" % (pat, c[:5]))
        return self.byname[c[0]]

    def fn(self, sym):
        f = self.fns.get(sym)
        if f is None:
            raw = self.rawfns.get(sym)
            if raw is None:
                return None
            f = Fn()
            f.sym, f.name, f.raw = sym, raw["name"], raw
            f.nargs, f.locals, f.spread = raw.get("nargs"), raw.get("locals"), raw.get("spread")
            f.kind = raw.get("kind")
            f.file, f.line = raw.get("file"), raw.get("line")
            f.blocks = None
            f.ipdom = None
            self.fns[sym] = f
        return f

    def ty(self, i):
        return self.types[i]

    def is_transparent(self, i):
        t = self.types[i]
        return t["k"] == "Adt" and t.get("adt") in TRANSPARENT

    def strip(self, i):
        """strip transparent wrappers"""
        while True:
            t = self.types[i]
            if t["k"] == "Adt" and t.get("adt") in TRANSPARENT:
                fs = t["variants"][0]["fields"]
                i = fs[-1][1]
                continue
            if t["k"] == "Pat":
                n = t.get("to")
                # a pattern type over a pointer or integer: same representation
                return i
            return i

    def is_ga(self, i):
        t = self.types[i]
        return t["k"] == "Adt" and t.get("adt", "").endswith("generic_array::GenericArray")

    def arr(self, i):
        """(elem type, len) if i is an array-like type after stripping"""
        i = self.strip(i)
        t = self.types[i]
        if t["k"] == "Array":
            return t["elem"], t["len"]
        if self.is_ga(i):
            e = t["targs"][0]
            es = self.types[e]["size"]
            return e, t["size"] // es if es else 0
        return None

    def tkey(self, i):
        k = self._tk.get(i)
        if k is not None:
            return k
        j = self.strip(i)
        t = self.types[j]
        kk = t["k"]
        self._tk[i] = ("rec", i)
        a = self.arr(j)
        if a:
            k = ("arr", self.tkey(a[0]), a[1])
        elif kk == "Adt":
            k = ("adt", t["adt"], tuple(self.tkey(x) for x in t.get("targs", [])))
        elif kk in ("Ref", "RawPtr"):
            k = ("ptr", self.tkey(t["to"]))
        elif kk == "Tuple":
            k = ("tup",) + tuple(self.tkey(x) for x in t["fields"])
        elif kk == "Slice":
            k = ("slice", self.tkey(t["elem"]))
        else:
            k = (kk, re.sub(r"'\w+", "", t["name"]))
        self._tk[i] = k
        return k

    def bits(self, i):
        t = self.types[self.strip(i)]
        k = t["k"]
        if k in ("Uint", "Int"):
            return t["bits"]
        if k == "Bool":
            return 1
        if k == "Char":
            return 32
        if k == "Pat":
            return t["size"] * 8
        return None

    def signed(self, i):
        return self.types[self.strip(i)]["k"] == "Int"

    def fields(self, i, variant=0):
        t = self.types[i]
        if t["k"] in ("Tuple", "Closure"):
            return t.get("fields", [])
        if t["k"] == "Adt":
            return [f[1] for f in t["variants"][variant]["fields"]]
        raise Unsupported("fields of %s" % t["name"])

    def is_enum(self, i):
        t = self.types[i]
        return t["k"] == "Adt" and t.get("adtkind") == "Enum"

    def discr(self, i, v):
        return int(self.types[i]["variants"][v]["discr"])

    # ---- constants ----------------------------------------------------------------
    def offsets(self, t, variant=None):
        sh = t["fieldsshape"]
        vs = t.get("variantsshape")
        if variant is not None and isinstance(vs, dict) and "Multiple" in vs:
            o = vs["Multiple"]["variants"][variant]["offsets"]
        elif isinstance(sh, dict) and "Arbitrary" in sh:
            o = sh["Arbitrary"]["offsets"]
        else:
            raise Unsupported("offsets of %s" % t["name"])
        return [x["num_bits"] // 8 for x in o]

    def decode(self, tyid, data, ptrs, base=0):
        """data: list/bytes with None for uninit; ptrs: {offset: allocid}"""
        t = self.types[tyid]
        k = t["k"]
        if self.is_transparent(tyid):
            return self.decode(self.strip(tyid), data, ptrs, base)
        if k in ("Uint", "Int", "Char", "Bool"):
            n = t["size"]
            bs = data[base:base + n]
            if any(x is None for x in bs):
                return UNDEF
            if base in ptrs:
                return self._ptr(ptrs[base], data, base)
            return int.from_bytes(bytes(bs), "little")
        a = self.arr(tyid)
        if a:
            es = self.types[a[0]]["size"]
            return tuple(self.decode(a[0], data, ptrs, base + j * es) for j in range(a[1]))
        if k in ("Ref", "RawPtr", "Pat", "FnPtr"):
            to = t.get("to")
            if k == "Pat":
                n = t["name"]
                to = None
                tt = self.types.get(t.get("to"))
                to = t.get("to") if tt is not None else None
                if base not in ptrs:
                    return int.from_bytes(bytes(data[base:base + t["size"]]), "little")
            if base not in ptrs:
                v = int.from_bytes(bytes(data[base:base + 8]), "little")
                if t["size"] == 16:
                    return Ptr(("dangling", v), (), 1, 0, int.from_bytes(bytes(data[base + 8:base + 16]), "little"))
                return v
            aid = ptrs[base]
            al = self.allocs.get(aid)
            if al is not None and "fn" in al:
                f = al["fn"]
                return FnPtr(f if isinstance(f, str) else f.get("sym"), f)
            off = int.from_bytes(bytes(data[base:base + 8]), "little")
            return self.const_ptr(aid, off, to, t, data, base, ptrs)
        if k == "Adt" and t["adtkind"] == "Enum":
            vs = t["variantsshape"]
            if "Single" in vs:
                v = vs["Single"]["index"]
                offs = self.offsets(t)
                fs = self.fields(tyid, v)
                return E(v, {v: tuple(self.decode(f, data, ptrs, base + o) for f, o in zip(fs, offs))})
            m = vs["Multiple"]
            tag = m["tag"]
            tl = json.dumps(tag)
            size = {"I8": 1, "I16": 2, "I32": 4, "I64": 8}.get(re.search(r'"length": "(I\d+)"', tl).group(1)) if "length" in tl else 8
            toff = t["fieldsshape"]["Arbitrary"]["offsets"][m["tag_field"]]["num_bits"] // 8
            raw = data[base + toff:base + toff + size]
            enc = m["tag_encoding"]
            if base + toff in ptrs:
                tv = None
            else:
                tv = int.from_bytes(bytes(raw), "little")
            if enc == "Direct":
                v = next(i for i in range(len(t["variants"])) if int(t["variants"][i]["discr"]) & ((1 << 8 * size) - 1) == tv)
            else:
                ni = enc["Niche"]
                un = ni["untagged_variant"]
                v = un
                if tv is not None:
                    st, en = ni["niche_variants"]["start"], ni["niche_variants"]["end"]
                    rel = (tv - int(ni["niche_start"])) & ((1 << 8 * size) - 1)
                    if rel <= en - st:
                        v = st + rel
            offs = self.offsets(t, v)
            fs = self.fields(tyid, v)
            return E(v, {v: tuple(self.decode(f, data, ptrs, base + o) for f, o in zip(fs, offs))})
        if k in ("Adt", "Tuple", "Closure"):
            if k == "Adt" and t["adtkind"] == "Union":
                fs = self.fields(tyid)
                return self.decode(fs[-1], data, ptrs, base)
            offs = self.offsets(t)
            return tuple(self.decode(f, data, ptrs, base + o) for f, o in zip(self.fields(tyid), offs))
        if k in ("FnDef", "Never"):
            return ()
        raise Unsupported("decode constant of %s" % t["name"])

    def _ptr(self, aid, data, base):
        return Ptr(("c", aid, None))

    def const_ptr(self, aid, off, to, t, data, base, ptrs):
        al = self.allocs.get(aid)
        tt = self.types.get(to) if to is not None else None
        if tt is None:
            return Ptr(("c", aid, None, off))
        if tt["k"] in ("Slice", "Str"):
            n = int.from_bytes(bytes(data[base + 8:base + 16]), "little")
            el = tt["elem"] if tt["k"] == "Slice" else None
            es = self.types[el]["size"] if el is not None else 1
            return Ptr(("c", aid, ("arr", el)), (), 1, off // es if es else 0, n)
        if tt["k"] == "Dynamic":
            return Ptr(("c", aid, None, off), (), 0, 0, ("vtable", ptrs.get(base + 8)))
        if "static" in al and al.get("ty") is not None:
            if off == 0:
                return Ptr(("c", aid, al["ty"]))
        return Ptr(("c", aid, to, off))

    def alloc_value(self, key):
        """value of a constant allocation key created by const_ptr"""
        aid, ty = key[1], key[2]
        off = key[3] if len(key) > 3 else 0
        al = self.allocs[aid]
        h = al["hex"]
        data = [None if h[i:i + 2] == "__" else int(h[i:i + 2], 16) for i in range(0, len(h), 2)] if "_" in h else bytes.fromhex(h)
        ptrs = dict((o, a) for o, a in al["ptrs"])
        if isinstance(ty, tuple):
            el = ty[1]
            if el is None:
                return tuple(data)
            es = self.types[el]["size"]
            return tuple(self.decode(el, data, ptrs, i * es) for i in range(len(data) // es)) if es else ()
        if ty is None:
            ty = al.get("ty")
            if ty is None:
                return tuple(data)
        return self.decode(ty, data, ptrs, off)
