"""Access paths and segmented arrays."""
from lin import Lin, const
from values import *


class Split(Exception):
    """the current step must be repeated in each of the refined states; alternatives: lists of (kind, Lin), kind in 'ge', 'eq'"""

    def __init__(self, alts):
        self.alts = alts


class Unsupported(Exception):
    pass


class Bad(Exception):
    """violation after which the path cannot be continued"""

    def __init__(self, props, msg):
        self.props = props
        self.msg = msg


def split_ge(l):
    return Split([[("ge", l)], [("ge", -l - 1)]])


def split_cmp(l):
    """l < 0, l == 0, l > 0"""
    return Split([[("ge", -l - 1)], [("eq", l)], [("ge", l - 1)]])


def decide_ge(S, l):
    """is l >= 0? may split"""
    if S.ge0(l):
        return True
    if S.ge0(-l - 1):
        return False
    raise split_ge(S.res(l))


def decide_eq(S, l):
    l = S.res(l)
    if not l.t:
        return l.c == 0
    if S.ge0(l - 1) or S.ge0(-l - 1):
        return False
    a = S.ge0(l)
    b = S.ge0(-l)
    if a and b:
        return True
    alts = [[("eq", l)]]
    if not a:
        alts.append([("ge", -l - 1)])
    if not b:
        alts.append([("ge", l - 1)])
    raise Split(alts)


def val_eq(S, a, b):
    """certainly equal"""
    if a is b or a == b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return S.eq(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, Agg):
        return a.ty == b.ty and a.var == b.var and all(val_eq(S, x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, Ptr):
        if isinstance(a.base, Lin) != isinstance(b.base, Lin):
            return False
        if isinstance(a.base, Lin):
            if not S.eq(a.base, b.base):
                return False
        elif a.base != b.base:
            return False
        if len(a.path) != len(b.path):
            return False
        for x, y in zip(a.path, b.path):
            if x[0] != y[0]:
                return False
            if x[0] == "x":
                if not S.eq(x[1], y[1]):
                    return False
            elif x != y:
                return False
        if isinstance(a.meta, Lin) and isinstance(b.meta, Lin):
            return S.eq(a.meta, b.meta)
        return a.meta == b.meta
    if isinstance(a, Tok):
        return a.kind == b.kind and (a.pos == b.pos or (isinstance(a.pos, Lin) and isinstance(b.pos, Lin) and S.eq(a.pos, b.pos)))
    if isinstance(a, Arr):
        return len(a.segs) == len(b.segs) and all(
            S.eq(x[0], y[0]) and S.eq(x[1], y[1]) and val_eq(S, x[2], y[2]) for x, y in zip(a.segs, b.segs))
    return False


def antiunify(S, a, b, x):
    """template t with t[x] = a and t[x + 1] = b, or None"""
    if a is b or a == b:
        return a
    if isinstance(a, Lin) and isinstance(b, Lin):
        d = S.res(b - a)
        if d.t:
            return None
        if d.c == 0:
            return a
        if d.c in (1, -1):
            return a + (IDXL - x).scale(d.c)
        return None
    if type(a) is not type(b):
        return None
    if isinstance(a, Agg):
        if a.ty != b.ty or a.var != b.var:
            return None
        fs = [antiunify(S, p, q, x) for p, q in zip(a.fs, b.fs)]
        if any(f is None for f in fs):
            return None
        return Agg(a.ty, a.var, tuple(fs))
    if isinstance(a, Tok):
        if a.kind != b.kind or not (isinstance(a.pos, Lin) and isinstance(b.pos, Lin)):
            return None
        p = antiunify(S, a.pos, b.pos, x)
        return None if p is None else Tok(a.kind, p)
    if isinstance(a, Ptr):
        if len(a.path) != len(b.path) or a.base != b.base or a.meta != b.meta:
            return None
        path = []
        for p, q in zip(a.path, b.path):
            if p == q:
                path.append(p)
            elif p[0] == "x" and q[0] == "x":
                z = antiunify(S, p[1], q[1], x)
                if z is None:
                    return None
                path.append(("x", z))
            else:
                return None
        return Ptr(a.base, tuple(path), a.meta)
    return None


def normalise(S, segs):
    """drops empty segments and merges adjacent segments where possible"""
    out = []
    for s in segs:
        lo, hi, t = s
        if lo == hi or S.eq(lo, hi):
            continue
        if out:
            plo, phi, pt = out[-1]
            m = _merge(S, plo, phi, pt, lo, hi, t)
            if m is not None:
                out[-1] = (plo, hi, m)
                continue
        out.append((lo, hi, t))
    return tuple(out)


def _merge(S, alo, ahi, at, blo, bhi, bt):
    if at is UN or bt is UN:
        return at if at is bt else None
    if type(at) is not type(bt):
        return None
    if isinstance(at, Agg) and (at.ty != bt.ty or at.var != bt.var):
        return None
    if val_eq(S, at, bt):
        return at
    single_b = S.eq(bhi, blo + 1)
    if single_b:
        if val_eq(S, at_idx(at, S.res(blo)), at_idx(bt, S.res(blo))):
            return at
    single_a = S.eq(ahi, alo + 1)
    if single_a:
        x = S.res(alo)
        if val_eq(S, at_idx(at, x), at_idx(bt, x)):
            return bt
    if single_a and single_b:
        x = S.res(alo)
        return antiunify(S, at_idx(at, x), at_idx(bt, x + 1), x)
    return None


def seg_find(S, segs, i):
    """index of the segment which contains position i; may split"""
    n = len(segs)
    for k, (lo, hi, _) in enumerate(segs):
        if S.ge0(i - lo) and S.ge0(hi - i - 1):
            return k
    if n == 0:
        raise Bad(ALL, "access to an element of an empty array")
    if not decide_ge(S, i - segs[0][0]):
        raise Bad(ALL, "access before the beginning of an array: index %r" % S.res(i))
    for k, (lo, hi, _) in enumerate(segs):
        if decide_ge(S, hi - i - 1):
            return k
    raise Bad(ALL, "out of bounds access: index %r of length %r" % (S.res(i), S.res(segs[-1][1])))


ALL = "ALL"


def arr_get(S, a, i):
    k = seg_find(S, a.segs, i)
    return at_idx(a.segs[k][2], S.res(i))


def arr_set(S, a, i, v):
    k = seg_find(S, a.segs, i)
    lo, hi, t = a.segs[k]
    i = S.res(i)
    new = list(a.segs[:k]) + [(lo, i, t), (i, i + 1, v), (i + 1, hi, t)] + list(a.segs[k + 1:])
    return Arr(normalise(S, new))


def arr_cut(S, segs, lo, hi):
    """list of (lo, hi, template) which covers [lo, hi); may split"""
    if S.eq(lo, hi):
        return []
    if not decide_ge(S, hi - lo - 1):
        return []
    out = []
    if not segs:
        raise Bad(ALL, "access to elements of an empty array")
    k = seg_find(S, segs, lo)
    cur = lo
    while True:
        a, b, t = segs[k]
        if decide_ge(S, b - hi):
            out.append((cur, hi, t))
            return out
        out.append((cur, b, t))
        cur = b
        k += 1
        if k >= len(segs):
            raise Bad(ALL, "out of bounds access: end %r of length %r" % (S.res(hi), S.res(segs[-1][1])))


def arr_put(S, a, lo, pieces):
    """replaces the positions covered by the pieces"""
    if not pieces:
        return a
    hi = pieces[-1][1]
    segs = a.segs
    k = seg_find(S, segs, lo)
    # last position
    m = seg_find(S, segs, hi - 1)
    new = list(segs[:k]) + [(segs[k][0], lo, segs[k][2])] + list(pieces) + [(hi, segs[m][1], segs[m][2])] + list(segs[m + 1:])
    return Arr(normalise(S, new))
