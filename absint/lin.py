"""Linear integer arithmetic: affine expressions over interned symbols and a store of linear constraints.

Entailment is decided by Fourier-Motzkin elimination with integer tightening over the connected component of
the query. It is sound for refutation: `entails` answers True only if the constraint is implied over the integers.
"""
from math import gcd

U64 = (1 << 64) - 1
I64 = (1 << 63) - 1


class SymTable:
    def __init__(self):
        self.keys = {}
        self.info = []  # (name, lo, hi)

    def get(self, key, name, lo, hi):
        i = self.keys.get(key)
        if i is None:
            i = len(self.info)
            self.keys[key] = i
            self.info.append((name, lo, hi))
        return i

    def name(self, i):
        return self.info[i][0]


SYMS = SymTable()


class Lin:
    """c + sum(coef * sym); immutable"""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = None

    @staticmethod
    def of_dict(c, d):
        return Lin(c, tuple(sorted((s, k) for s, k in d.items() if k)))

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Lin.of_dict(self.c + o.c, d)

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((s, c * k) for s, c in self.t))

    def subst(self, m):
        """m: sym -> Lin"""
        if not any(s in m for s, _ in self.t):
            return self
        r = Lin(self.c)
        for s, k in self.t:
            if s in m:
                r = r + m[s].scale(k)
            else:
                r = r + Lin(0, ((s, k),))
        return r

    def syms(self):
        return [s for s, _ in self.t]

    def __repr__(self):
        out = ""
        for s, k in self.t:
            n = SYMS.name(s)
            if k == 1:
                out += (" + " if out else "") + n
            elif k == -1:
                out += (" - " if out else "-") + n
            else:
                out += (" + " if out else "") + "%d*%s" % (k, n)
        if self.c or not out:
            if out:
                c = self.c
                sign = " + " if c >= 0 else " - "
                out += sign + _big(abs(c))
            else:
                out = _big(self.c)
        return out


def _big(c):
    if c == U64:
        return "MAX"
    if c == U64 + 1:
        return "2^64"
    return str(c)


def sym(i):
    return Lin(0, ((i, 1),))


def const(c):
    return Lin(c)


def norm(t, c):
    """normalise sum(t)+c >= 0 -> (t, c) or True/False"""
    if not t:
        return c >= 0
    g = 0
    for _, k in t:
        g = gcd(g, k)
    if g != 1:
        t = tuple((s, k // g) for s, k in t)
        c = c // g  # floor
    return t, c


_cache = {}
FM_CAP = 4000
STATS = {"queries": 0, "fm": 0, "capped": 0}


def back_substitute(trail):
    """an integer point of the eliminated constraints, or None; trail: (symbol, [(k, t, c)] with k > 0, [(k, t, c)] with -k)"""
    m = {}
    for s, P, N in reversed(trail):
        lo = hi = None
        for k, t, c in P:
            # k * s + rest + c >= 0
            r = c
            for x, q in t:
                if x != s:
                    r += q * m.get(x, 0)
            b = -(r // k)
            if lo is None or b > lo:
                lo = b
        for k, t, c in N:
            r = c
            for x, q in t:
                if x != s:
                    r += q * m.get(x, 0)
            b = r // k
            if hi is None or b < hi:
                hi = b
        if lo is None:
            m[s] = hi
        elif hi is None or lo <= hi:
            m[s] = lo
        else:
            return None
    return m


def fm_unsat(cons, out=None):
    """cons: dict t -> c (meaning t + c >= 0). True if certainly unsatisfiable over the integers"""
    STATS["fm"] += 1
    trail = []
    # index
    cons = dict(cons)
    while True:
        # occurrences
        pos = {}
        neg = {}
        for t in cons:
            for s, k in t:
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        best = None
        bs = None
        for s in set(pos) | set(neg):
            p = pos.get(s, 0)
            n = neg.get(s, 0)
            cost = p * n - p - n
            if best is None or cost < best or (cost == best and s < bs):
                best = cost
                bs = s
        if bs is None:
            if out is not None:
                m = back_substitute(trail)
                if m is not None:
                    out.append(m)
            return False
        P = []
        N = []
        rest = {}
        for t, c in cons.items():
            k = 0
            for s, kk in t:
                if s == bs:
                    k = kk
                    break
            if k > 0:
                P.append((k, t, c))
            elif k < 0:
                N.append((-k, t, c))
            else:
                rest[t] = c
        trail.append((bs, P, N))
        for kp, tp, cp in P:
            for kn, tn, cn in N:
                g = gcd(kp, kn)
                a = kn // g
                b = kp // g
                d = {}
                for s, k in tp:
                    d[s] = k * a
                for s, k in tn:
                    v = d.get(s, 0) + k * b
                    if v:
                        d[s] = v
                    elif s in d:
                        del d[s]
                c = cp * a + cn * b
                r = norm(tuple(sorted(d.items())), c)
                if r is True:
                    continue
                if r is False:
                    return True
                t, c = r
                o = rest.get(t)
                if o is None or c < o:
                    # direct contradiction with the opposite constraint
                    nt = tuple((s, -k) for s, k in t)
                    on = rest.get(nt)
                    if on is not None and on + c < 0:
                        return True
                    rest[t] = c
        if len(rest) > FM_CAP:
            STATS["capped"] += 1
            return False
        cons = rest


class Store:
    """conjunction of linear constraints with eager substitution of equalities"""
    __slots__ = ("cons", "sub", "shared", "index", "models")

    def __init__(self):
        self.cons = {}  # t -> c   (t + c >= 0)
        self.sub = {}  # sym -> Lin
        self.index = {}  # sym -> frozenset/tuple of t
        self.shared = False
        self.models = []  # integer points of the components, they refute queries cheaply

    def copy(self):
        s = Store.__new__(Store)
        s.cons = self.cons
        s.sub = self.sub
        s.index = self.index
        s.models = self.models
        s.shared = True
        self.shared = True
        return s

    def _own(self):
        self.models = []
        if self.shared:
            self.cons = dict(self.cons)
            self.sub = dict(self.sub)
            self.index = dict(self.index)
            self.shared = False

    def res(self, l):
        """resolve by substitution"""
        if self.sub and l.t:
            return l.subst(self.sub)
        return l

    def _add(self, t, c):
        o = self.cons.get(t)
        if o is None:
            self.cons[t] = c
            for s, _ in t:
                self.index[s] = self.index.get(s, ()) + (t,)
            return True
        elif c < o:
            self.cons[t] = c
            return True
        return False

    def _del(self, t):
        del self.cons[t]
        for s, _ in t:
            self.index[s] = tuple(x for x in self.index[s] if x is not t and x != t)

    def component(self, syms):
        seen = set(syms)
        todo = list(syms)
        ts = {}
        while todo:
            s = todo.pop()
            for t in self.index.get(s, ()):
                if t not in ts:
                    ts[t] = self.cons[t]
                    for s2, _ in t:
                        if s2 not in seen:
                            seen.add(s2)
                            todo.append(s2)
        return ts, seen

    def _unsat_with(self, t, c):
        """is cons /\\ (t + c >= 0) unsatisfiable? t non-empty, normalised"""
        STATS["queries"] += 1
        nt = tuple((s, -k) for s, k in t)
        o = self.cons.get(nt)
        if o is not None and o + c < 0:
            return True
        for m in self.models:
            v = c
            for s, k in t:
                x = m.get(s)
                if x is None:
                    break
                v += k * x
            else:
                if v >= 0:
                    STATS["refuted"] = STATS.get("refuted", 0) + 1
                    return False
        ts, seen = self.component([s for s, _ in t])
        o = ts.get(t)
        if o is None or c < o:
            ts[t] = c
        key = (frozenset(ts.items()),)
        r = _cache.get(key)
        if r is not None:
            return r
        full = dict(ts)
        for s in seen:
            _, lo, hi = SYMS.info[s]
            if lo is not None:
                k = ((s, 1),)
                if k not in full or full[k] > -lo:
                    full[k] = -lo
            if hi is not None:
                k = ((s, -1),)
                if k not in full or full[k] > hi:
                    full[k] = hi
        out = []
        r = fm_unsat(full, out)
        if out:
            m = out[0]
            # the elimination is exact for rational numbers only
            if all(c + sum(k * m.get(s, 0) for s, k in t2) >= 0 for t2, c in full.items()):
                self.models.append(m)
                if len(self.models) > 40:
                    self.models.pop(0)
        if len(_cache) > 400000:
            _cache.clear()
        _cache[key] = r
        return r

    # ---- queries: l is a Lin
    def ge0(self, l):
        """entails l >= 0"""
        l = self.res(l)
        if not l.t:
            return l.c >= 0
        # quick: interval by bounds
        n = norm(tuple((s, -k) for s, k in l.t), -l.c - 1)
        t, c = n
        o = self.cons.get(l.t)
        if o is not None and o <= l.c:
            return True
        return self._unsat_with(t, c)

    def eq0(self, l):
        l = self.res(l)
        if not l.t:
            return l.c == 0
        return self.ge0(l) and self.ge0(-l)

    def le(self, a, b):
        return self.ge0(b - a)

    def lt(self, a, b):
        return self.ge0(b - a - 1)

    def eq(self, a, b):
        if a == b:
            return True
        return self.eq0(a - b)

    def ne(self, a, b):
        d = a - b
        return self.ge0(d - 1) or self.ge0(-d - 1)

    # ---- assertions: return False if the result is unsatisfiable
    def assume_ge0(self, l):
        l = self.res(l)
        if not l.t:
            return l.c >= 0
        r = norm(l.t, l.c)
        t, c = r
        o = self.cons.get(t)
        if o is not None and o <= c:
            return True
        if self._unsat_with(t, c):
            return False
        # is it an implied equality with an existing opposite constraint?
        nt = tuple((s, -k) for s, k in t)
        on = self.cons.get(nt)
        if on is not None and on + c == 0:
            return self._assume_eq(Lin(c, t))
        if on is None and len(t) == 1:
            s, k = t[0]
            _, lo, hi = SYMS.info[s]
            if k == 1 and hi is not None and -c == hi:
                return self._assume_eq(Lin(c, t))
            if k == -1 and lo is not None and c == lo:
                return self._assume_eq(Lin(c, t))
        keep = []
        for m in self.models:
            v = c
            for x, k in t:
                y = m.get(x)
                if y is None:
                    break
                v += k * y
            else:
                if v >= 0:
                    keep.append(m)
        self._own()
        self.models = keep
        self._add(t, c)
        return True

    def assume_eq0(self, l):
        l = self.res(l)
        if not l.t:
            return l.c == 0
        return self._assume_eq(l)

    def _assume_eq(self, l):
        l = self.res(l)
        if not l.t:
            return l.c == 0
        # choose the newest symbol with a unit coefficient
        best = None
        for s, k in l.t:
            if k in (1, -1) and (best is None or s > best[0]):
                best = (s, k)
        if best is None:
            t, c = norm(l.t, l.c)
            if self._unsat_with(t, c):
                return False
            r = norm(tuple((s, -k) for s, k in l.t), -l.c)
            if self._unsat_with(*r):
                return False
            self._own()
            self._add(t, c)
            self._add(*r)
            return True
        s, k = best
        rest = Lin(l.c, tuple((x, y) for x, y in l.t if x != s))
        val = rest.scale(-1) if k == 1 else rest
        _, lo, hi = SYMS.info[s]
        self._own()
        m = {s: val}
        for x, v in list(self.sub.items()):
            if any(y == s for y, _ in v.t):
                self.sub[x] = v.subst(m)
        self.sub[s] = val
        olds = self.index.get(s, ())
        newc = []
        for t in olds:
            c = self.cons[t]
            newc.append(Lin(c, t).subst(m))
        for t in olds:
            self._del(t)
        self.index.pop(s, None)
        if lo is not None:
            newc.append(val - lo)
        if hi is not None:
            newc.append((-val) + hi)
        for n in newc:
            if not self.assume_ge0(n):
                return False
        return True

    def constraints(self):
        return [Lin(c, t) for t, c in self.cons.items()]

    def __repr__(self):
        a = ["%s = %r" % (SYMS.name(s), v) for s, v in self.sub.items()]
        b = ["%r >= 0" % Lin(c, t) for t, c in self.cons.items()]
        return "; ".join(a + b)
