"""Abstract values: immutable trees whose integer leaves are affine expressions."""
from lin import Lin, SYMS, sym, const, U64

IDX = SYMS.get("IDX", "idx", None, None)
IDXL = sym(IDX)


class _UN:
    def __repr__(self):
        return "uninit"


UN = _UN()


class Agg:
    """struct, tuple, closure, enum (active variant) or union (active field)"""
    __slots__ = ("ty", "var", "fs", "_h")

    def __init__(self, ty, var, fs):
        self.ty = ty
        self.var = var
        self.fs = fs
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Agg) and self.ty == o.ty and self.var == o.var and self.fs == o.fs)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.ty, self.var, self.fs))
        return self._h

    def __repr__(self):
        return "{%s/%s %s}" % (self.ty, self.var, ", ".join(map(repr, self.fs)))


class Ptr:
    """base: object id or Lin (address without object)"""
    __slots__ = ("base", "path", "meta", "_h")

    def __init__(self, base, path=(), meta=None):
        self.base = base
        self.path = path
        self.meta = meta
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.path == o.path and self.meta == o.meta

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.base, self.path, self.meta))
        return self._h

    def is_addr(self):
        return isinstance(self.base, Lin)

    def __repr__(self):
        return "&%r%s%s" % (self.base, "".join("[%r]" % e[1] if e[0] == "x" else ".%d" % e[1] for e in self.path),
                            "" if self.meta is None else " len " + repr(self.meta))


class Fnp:
    __slots__ = ("fid",)

    def __init__(self, fid):
        self.fid = fid

    def __eq__(self, o):
        return isinstance(o, Fnp) and self.fid == o.fid

    def __hash__(self):
        return hash(("fnp", self.fid))


class Tok:
    """opaque token with a kind and Lin leaves: elements, the wrapped iterator, accumulators, ..."""
    __slots__ = ("kind", "pos")

    def __init__(self, kind, pos=None):
        self.kind = kind
        self.pos = pos

    def __eq__(self, o):
        return isinstance(o, Tok) and self.kind == o.kind and self.pos == o.pos

    def __hash__(self):
        return hash(("tok", self.kind, self.pos))

    def __repr__(self):
        return "%s(%r)" % (self.kind, self.pos)


# an Option which is None or holds an element of an earlier chunk
OPT = Tok("opt", None)


class Arr:
    """segments (lo, hi, template): the template may refer to the element index IDX"""
    __slots__ = ("segs", "_h")

    def __init__(self, segs):
        self.segs = segs
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Arr) and self.segs == o.segs

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.segs)
        return self._h

    def __repr__(self):
        return "[" + "; ".join("%r..%r: %r" % s for s in self.segs) + "]"


def map_lin(v, f):
    """applies f to every Lin leaf"""
    if isinstance(v, Lin):
        return f(v)
    if isinstance(v, Agg):
        if not v.fs:
            return v
        n = tuple(map_lin(x, f) for x in v.fs)
        for a, b in zip(n, v.fs):
            if a is not b:
                return Agg(v.ty, v.var, n)
        return v
    if isinstance(v, Ptr):
        base = f(v.base) if isinstance(v.base, Lin) else v.base
        path = tuple(("x", f(e[1])) if e[0] == "x" else e for e in v.path)
        meta = f(v.meta) if isinstance(v.meta, Lin) else v.meta
        return Ptr(base, path, meta)
    if isinstance(v, Tok):
        return Tok(v.kind, f(v.pos)) if isinstance(v.pos, Lin) else v
    if isinstance(v, Arr):
        return Arr(tuple((f(a), f(b), map_lin(t, f)) for a, b, t in v.segs))
    if isinstance(v, tuple):
        return tuple(map_lin(x, f) for x in v)
    return v


def at_idx(t, i):
    m = {IDX: i}
    return map_lin(t, lambda l: l.subst(m))
