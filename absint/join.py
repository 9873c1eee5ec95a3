"""Canonical shapes, joins and subsumption of states at loop heads."""
from fractions import Fraction
from lin import *
from values import *
from memory import Unsupported, Bad

MAX_PARTITIONS = 400
HOUDINI_AFTER = 4
MAX_JOINS = 60


class Canon:
    __slots__ = ("shape", "leaves", "order", "ctx")


def canon(I, st, skip_loop=None):
    """shape (hashable), list of Lin leaves and the order of the objects of the state"""
    S = st.store
    shape = []
    leaves = []
    order = {}
    queue = []
    ap = shape.append

    ctx = []
    seg = [None]

    def leaf(l):
        ap("#")
        ctx.append(seg[0])
        leaves.append(S.res(l))

    def visit(v):
        if isinstance(v, Lin):
            leaf(v)
        elif isinstance(v, Agg):
            ap(v.ty)
            ap(v.var)
            for x in v.fs:
                visit(x)
        elif isinstance(v, bool) or v is None:
            ap(v)
        elif v is UN:
            ap("?")
        elif isinstance(v, Ptr):
            if isinstance(v.base, Lin):
                ap("a")
                leaf(v.base)
            else:
                n = order.get(v.base)
                if n is None:
                    n = len(order)
                    order[v.base] = n
                    queue.append(v.base)
                ap(("p", n))
                for e in v.path:
                    if e[0] == "x":
                        ap("x")
                        leaf(e[1])
                    else:
                        ap(e)
            if v.meta is None:
                ap("-")
            else:
                leaf(v.meta)
        elif isinstance(v, Tok):
            ap(v.kind)
            if isinstance(v.pos, Lin):
                leaf(v.pos)
            else:
                ap(v.pos)
        elif isinstance(v, Arr):
            ap(("[", len(v.segs)))
            for a, b, t in v.segs:
                leaf(a)
                leaf(b)
                old = seg[0]
                seg[0] = len(leaves) - 2
                visit(t)
                seg[0] = old
            ap("]")
        elif isinstance(v, Fnp):
            ap(("fn", v.fid))
        elif isinstance(v, tuple):
            ap(("(", len(v)))
            for x in v:
                visit(x)
        else:
            ap(v)

    def drain():
        while queue:
            o = queue.pop(0)
            ob = st.objs.get(o)
            if ob is None:
                ap("dead")
                continue
            ap(("o", ob.ty, ob.kind, ob.es))
            visit(ob.val)

    for fi, fr in enumerate(st.frames):
        fn = I.p.fns[fr.fid]
        top = fi == len(st.frames) - 1
        live = live_locals(I, st, fi)
        ap(("F", fr.fid, fr.bb))
        if fr.dest is not None and not isinstance(fr.dest[0], Lin):
            visit(Ptr(fr.dest[0], fr.dest[1]))
        for l in sorted(fr.locs):
            if l not in live:
                continue
            ap(("l", l))
            o = fr.locs[l]
            if o not in order:
                order[o] = len(order)
                queue.append(o)
            ap(("p", order[o]))
        drain()
    ap(st.unw)
    for k in sorted(st.g):
        if k.startswith("_"):
            continue
        ap(k)
        visit(st.g[k])
    drain()
    for k in sorted(st.loops):
        if k == skip_loop:
            continue
        ap(k)
        ap(st.loops[k][1])
    for o in sorted(x for x, ob in st.objs.items() if ob.kind == "heap" and x not in order):
        ap("leaked")
        order[o] = len(order)
        queue.append(o)
        drain()
    c = Canon()
    c.shape = tuple(shape)
    c.leaves = leaves
    c.order = order
    c.ctx = ctx
    return c


def harmonise(SA, ca, SB, cb):
    """templates of segments with a single element take the form of the template of the other side; False if the templates differ"""
    na, nb = {}, {}
    for i, x in enumerate(ca.ctx):
        if x is None:
            continue
        a, b = ca.leaves[i], cb.leaves[i]
        ka = next((k for s, k in a.t if s == IDX), 0)
        kb = next((k for s, k in b.t if s == IDX), 0)
        if ka == kb:
            continue
        if ka == 0 and SA.eq(ca.leaves[x + 1], ca.leaves[x] + 1):
            na[i] = a + (IDXL - ca.leaves[x]).scale(kb)
        elif kb == 0 and SB.eq(cb.leaves[x + 1], cb.leaves[x] + 1):
            nb[i] = b + (IDXL - cb.leaves[x]).scale(ka)
        elif ka and kb == 0 and SA.eq(ca.leaves[x + 1], ca.leaves[x] + 1):
            na[i] = a + (ca.leaves[x] - IDXL).scale(ka)
        elif kb and ka == 0 and SB.eq(cb.leaves[x + 1], cb.leaves[x] + 1):
            nb[i] = b + (cb.leaves[x] - IDXL).scale(kb)
        else:
            return False
    for i, v in na.items():
        ca.leaves[i] = v
    for i, v in nb.items():
        cb.leaves[i] = v
    return True


def live_locals(I, st, fi):
    fr = st.frames[fi]
    fn = I.p.fns[fr.fid]
    if fi == len(st.frames) - 1:
        return fn.live_in[fr.bb] | fn.addr_taken
    nx = st.frames[fi + 1]
    live = set(fn.addr_taken)
    if nx.target is not None:
        live |= fn.live_in[nx.target]
    if isinstance(nx.unwind, int):
        live |= fn.live_in[nx.unwind]
    if nx.dest is not None:
        for l, o in fr.locs.items():
            if o == nx.dest[0]:
                live.add(l)
    return live


def rebuild(I, st, c, new):
    """copy of the state with the leaves replaced; dead locals and unreachable objects are removed"""
    it = iter(new)
    S = st.store
    n = st.copy()
    order = {}
    queue = []
    objs = {}

    def visit(v):
        if isinstance(v, Lin):
            return next(it)
        if isinstance(v, Agg):
            if not v.fs:
                return v
            return Agg(v.ty, v.var, tuple([visit(x) for x in v.fs]))
        if isinstance(v, bool) or v is None or v is UN:
            return v
        if isinstance(v, Ptr):
            base = v.base
            path = v.path
            if isinstance(base, Lin):
                base = next(it)
            else:
                if base not in order:
                    order[base] = 1
                    queue.append(base)
                path = tuple([("x", next(it)) if e[0] == "x" else e for e in path])
            meta = v.meta
            if meta is not None:
                meta = next(it)
            return Ptr(base, path, meta)
        if isinstance(v, Tok):
            if isinstance(v.pos, Lin):
                return Tok(v.kind, next(it))
            return v
        if isinstance(v, Arr):
            return Arr(tuple([(next(it), next(it), visit(t)) for a, b, t in v.segs]))
        if isinstance(v, tuple):
            return tuple([visit(x) for x in v])
        return v

    def drain():
        while queue:
            o = queue.pop(0)
            ob = st.objs.get(o)
            if ob is None:
                continue
            objs[o] = type(ob)(ob.ty, visit(ob.val), ob.kind, ob.es)

    for fi, fr in enumerate(st.frames):
        live = live_locals(I, st, fi)
        nf = n.frames[fi]
        if fr.dest is not None and not isinstance(fr.dest[0], Lin):
            p = visit(Ptr(fr.dest[0], fr.dest[1]))
            nf.dest = (p.base, p.path)
        for l in sorted(fr.locs):
            if l not in live:
                nf.locs.pop(l)
                continue
            o = fr.locs[l]
            if o not in order:
                order[o] = 1
                queue.append(o)
        drain()
    for k in sorted(st.g):
        if k.startswith("_"):
            continue
        n.g[k] = visit(st.g[k])
    drain()
    for o in sorted(x for x, ob in st.objs.items() if ob.kind == "heap" and x not in order):
        order[o] = 1
        queue.append(o)
        drain()
    n.objs = objs
    return n


class Head:
    __slots__ = ("st", "c", "own", "joins", "key", "id", "params", "dims", "since")


def params_of(I):
    return I.mon.params()


def arrive(I, st, heads):
    """at a loop head: DONE if the state is covered by an earlier one, a state to continue with otherwise"""
    from interp import DONE
    I.stats["heads"] += 1
    fr = st.frames[-1]
    fn = I.p.fns[fr.fid]
    lk = (len(st.frames), fr.fid, fr.bb)
    # loops which are not active anymore
    for k in list(st.loops):
        if k[0] > lk[0]:
            del st.loops[k]
        else:
            f = st.frames[k[0] - 1]
            if f.fid != k[1] or f.bb not in I.p.fns[k[1]].body[k[2]]:
                del st.loops[k]
    c = canon(I, st, skip_loop=lk)
    sig = tuple((f.fid, f.bb) for f in st.frames)
    key = (sig, c.shape)
    parts = heads.setdefault(sig, {})
    h = None
    key0 = c.shape
    while key0 in parts:
        # templates of segments must depend on the index in the same way
        if harmonise(parts[key0].st.store, parts[key0].c, st.store, c):
            h = parts[key0]
            break
        key0 = (key0,)
    prev = st.loops.get(lk)
    if h is None:
        if len(parts) >= MAX_PARTITIONS:
            raise Unsupported("the loop in %s does not converge" % fn.short)
        h = Head()
        h.id = len(parts)
        h.joins = 0
        h.dims = h.since = 0
        h.own = frozenset()
        h.params = set(params_of(I))
        h.key = key
        parts[key0] = h
        check_progress(I, st, fr, fn, lk, prev, h, c)
        new = rebuild(I, st, c, c.leaves)
        h.st = new
        h.c = c
        cont = new.copy()
        enter_loop(cont, lk, h, c.leaves)
        cont.g["_athead"] = True
        return cont
    check_progress(I, st, fr, fn, lk, prev, h, c)
    if subsumed(I, h, st, c, lk):
        return DONE
    I.stats["joins"] += 1
    h.joins += 1
    if h.joins > MAX_JOINS:
        raise Unsupported("the loop in %s does not converge" % fn.short)
    join(I, h, st, c)
    for k, v in list(h.st.loops.items()):
        if k != lk and v[0] is not None and st.loops[k][0] != v[0]:
            h.st.loops[k] = (None, v[1], ())
    cont = h.st.copy()
    cont.trace = st.trace
    enter_loop(cont, lk, h, h.c.leaves)
    cont.g["_athead"] = True
    return cont


def enter_loop(st, lk, h, leaves):
    # (partition, progress flags, leaves at the head)
    st.loops[lk] = (h.id, frozenset(), tuple(leaves))


def mark(st, flag):
    """an event which counts as progress of all active loops"""
    for k, (a, b, c) in list(st.loops.items()):
        if flag not in b and "progress" not in b:
            st.loops[k] = (a, frozenset((flag,)) if flag == "progress" else b | {flag}, c)


def check_progress(I, st, fr, fn, lk, prev, h, c):
    if prev is None:
        return
    if fn.crate == "probes":
        return
    pid, flags, leaves = prev
    if "progress" in flags or "casfail" in flags:
        return
    if I.mon.spin_ok(st, flags):
        return
    if pid == h.id and len(leaves) == len(c.leaves):
        S = st.store
        # a difference of leaves which is bounded at the head and decreases
        ch = [i for i in range(len(leaves)) if not S.eq(leaves[i], c.leaves[i])]
        for i in ch:
            d = S.res(c.leaves[i] - leaves[i])
            if S.ge0(d - 1):
                # increases: bounded by another leaf
                for j in range(len(leaves)):
                    if j != i and S.ge0(leaves[j] - leaves[i] - 1) and S.ge0(leaves[j] - c.leaves[j]):
                        return
                return_if = S.ge0(Lin(U64) - c.leaves[i])
                if return_if and I.limits.get("weak_ranking"):
                    return
            elif S.ge0(-d - 1):
                if S.ge0(leaves[i]) and S.ge0(c.leaves[i]):
                    return
                for j in range(len(leaves)):
                    if j != i and S.ge0(leaves[i] - leaves[j] - 1) and S.ge0(c.leaves[j] - leaves[j]):
                        return
    elif pid != h.id:
        # from one class of states to another one: the loop spins only if it can come back
        edges = I.spin_edges.setdefault(lk, {})
        edges.setdefault(pid, set()).add(h.id)
        todo, seen = [h.id], set()
        while todo:
            x = todo.pop()
            if x == pid:
                break
            if x not in seen:
                seen.add(x)
                todo.extend(edges.get(x, ()))
        else:
            return
    I.mon.no_progress(st, lk, pid, h.id, I.p.fns[lk[1]], fr)


# ---------------------------------------------------------------------- subsumption and join
def subsumed(I, h, st, c, lk):
    SB = st.store
    m = {}
    own = h.own
    SA = h.st.store
    pend = []
    for e, f in zip(h.c.leaves, c.leaves):
        if e == f and not any(s in own for s in e.syms()):
            continue
        u = [(s, k) for s, k in e.t if s in own and s not in m]
        if not u:
            if not SB.eq(e.subst(m), f):
                return False
        elif len(u) == 1 and u[0][1] in (1, -1):
            s, k = u[0]
            rest = (e - Lin(0, ((s, k),))).subst(m)
            m[s] = (f - rest).scale(k)
        else:
            pend.append((e, f))
    for e, f in pend:
        if any(s in own and s not in m for s, _ in e.t):
            return False
        if not SB.eq(e.subst(m), f):
            return False
    for s, v in SA.sub.items():
        if s in own or s not in h.params:
            continue
        if not SB.eq(sym(s), v.subst(m)):
            return False
    rel = relevant(SA, h)
    for l in rel:
        if any(x in own and x not in m for x, _ in l.t):
            return False
        if not SB.ge0(l.subst(m)):
            return False
    # what is known about the enclosing loops
    for k, v in h.st.loops.items():
        if k != lk and v[0] is not None and st.loops[k][0] != v[0]:
            return False
    # bounds of own symbols
    for s in own:
        if s in m:
            _, lo, hi = SYMS.info[s]
            if lo is not None and not SB.ge0(m[s] - lo):
                return False
            if hi is not None and not SB.ge0(Lin(hi) - m[s]):
                return False
    return True


def relevant(S, h):
    return S.constraints()


def rows_of(vals):
    return vals


def join(I, h, st, c):
    A, B = h.st, st
    SA, SB = A.store, B.store
    params = sorted(params_of(I))
    la, lb = h.c.leaves, c.leaves
    n = len(la)
    # coordinates: parameters first, then the leaves which differ
    own = h.own
    coords = []  # (name, exprA, exprB)
    for p in params:
        a, b = SA.res(sym(p)), SB.res(sym(p))
        coords.append((("p", p), a, b))
    syA = set()
    for e in la:
        syA.update(e.syms())
    syB = set()
    for e in lb:
        syB.update(e.syms())
    common = [s for s in sorted((syA & syB) - {IDX}) if s not in own and s not in params and s not in SA.sub and s not in SB.sub]
    for s in common:
        coords.append((("k", s), sym(s), sym(s)))
    changed = []
    shift = {}
    for i in range(n):
        a, b = la[i], lb[i]
        if a == b and not any(s in own for s in a.syms()):
            continue
        changed.append(i)
        # the index of a template is not a coordinate
        k = next((k for s, k in a.t if s == IDX), 0)
        if k:
            shift[i] = IDXL.scale(k)
            a, b = a - shift[i], b - shift[i]
        coords.append((("l", i), a, b))
    # affine hull
    dirs = []
    for k in (1, 2):
        syms = set()
        for x in coords:
            syms.update(x[k].syms())
        for s in sorted(syms):
            v = []
            for x in coords:
                q = 0
                for s2, kk in x[k].t:
                    if s2 == s:
                        q = kk
                v.append(q)
            dirs.append(v)
    dirs.append([x[2].c - x[1].c for x in coords])
    pt = [x[1].c for x in coords]
    # rows: each coordinate is a vector over the directions; find a basis of rows in order
    nd = len(dirs)
    rows = [[Fraction(dirs[j][i]) for j in range(nd)] for i in range(len(coords))]
    basis = []  # (row index, reduced row, combination over basis coords)
    red = []  # list of (pivot col, row vector, dict coord index -> coefficient)
    exprs = {}  # coordinate index -> dict basis coord -> coef
    for i, r in enumerate(rows):
        v = list(r)
        comb = {i: Fraction(1)}
        for piv, rv, rc in red:
            if v[piv]:
                q = v[piv] / rv[piv]
                v = [x - q * y for x, y in zip(v, rv)]
                for k2, c2 in rc.items():
                    comb[k2] = comb.get(k2, 0) - q * c2
        piv = next((j for j in range(nd) if v[j]), None)
        if piv is None:
            # coordinate i is a combination of earlier ones: sum comb = 0 => x_i = -sum_{k != i}
            exprs[i] = {k2: -c2 for k2, c2 in comb.items() if k2 != i and c2}
        else:
            red.append((piv, v, comb))
            basis.append(i)
    # combinations refer to basis coordinates only (rc contains basis coordinates)
    name = {}
    newown = set()
    extra_eq = []

    def base_sym(i):
        s = name.get(i)
        if s is None:
            kind, x = coords[i][0]
            if kind in ("p", "k"):
                s = sym(x)
            else:
                lo, hi = bounds_hint(SA, SB, coords[i][1], coords[i][2])
                s = I_fresh("j", lo, hi)
                newown.add(s.t[0][0])
            name[i] = s
        return s

    newleaf = list(la)
    values = {}
    for i in range(len(coords)):
        kind, x = coords[i][0]
        if i in exprs:
            d = exprs[i]
            den = 1
            for q in d.values():
                den = den * q.denominator // gcd(den, q.denominator)
            c0 = Fraction(pt[i]) - sum((q * pt[k2] for k2, q in d.items()), Fraction(0))
            den = den * c0.denominator // gcd(den, c0.denominator)
            e = Lin(int(c0 * den))
            for k2, q in d.items():
                e = e + base_sym(k2).scale(int(q * den))
            if den != 1:
                s = base_sym(i) if kind == "l" else sym(x)
                extra_eq.append(s.scale(den) - e)
                e = s
            elif kind in ("p", "k"):
                extra_eq.append(sym(x) - e)
                e = sym(x)
            values[i] = e
        else:
            values[i] = base_sym(i)
    for i in range(len(coords)):
        kind, x = coords[i][0]
        if kind == "l":
            newleaf[x] = values[i] + shift[x] if x in shift else values[i]
    # substitution from new names to the expressions of A and B
    mA, mB = {}, {}
    for i, s in name.items():
        kind, x = coords[i][0]
        if kind == "l":
            k0 = s.t[0][0]
            mA[k0] = coords[i][1]
            mB[k0] = coords[i][2]
    # candidates
    S = Store()
    for q in extra_eq:
        if not S.assume_eq0(q):
            raise Unsupported("join")
    cands = []
    seen = set()
    invA, invB = {}, {}
    for side, inv in ((1, invA), (2, invB)):
        for i in list(name):
            kind, x = coords[i][0]
            if kind != "l":
                continue
            e = coords[i][side]
            for s, k in e.t:
                if k in (1, -1) and s not in inv and (s in own or s not in common) and s not in params:
                    # s = k * (leaf - rest)
                    rest = e - Lin(0, ((s, k),))
                    ok = all((s2 in inv) or (s2 in common) or (s2 in params) for s2, _ in rest.t)
                    if ok:
                        inv[s] = (values[i] - rest.subst(inv)).scale(k)
                        break
    okset = (set(params) | set(common) | newown) - {IDX}
    def consider(l):
        if l.t and all(s in okset for s, _ in l.t):
            key = (l.t, l.c)
            if key not in seen:
                seen.add(key)
                cands.append(l)
    # templates are tried again when an equality was lost
    dims = len(newown) + sum(1 for i in basis if coords[i][0][0] == "p")
    if dims > h.dims:
        h.dims = dims
        h.since = h.joins
    houdini = h.joins - h.since >= HOUDINI_AFTER
    # changed leaves which are constants or bounded symbols on one side
    for i in changed:
        v = newleaf[i]
        if v.t and all(s in okset for s, _ in v.t):
            for x in (SA.res(la[i]), SB.res(lb[i])):
                if x.is_const():
                    if not houdini:
                        consider(v - x.c)
                        consider(-v + x.c)
                elif len(x.t) == 1:
                    q, k = x.t[0]
                    _, lo, hi = SYMS.info[q]
                    if k == 1:
                        if lo is not None:
                            consider(v - lo - x.c)
                        if hi is not None:
                            consider(-v + hi + x.c)
    for l in SA.constraints():
        consider(l.subst(invA))
    if not houdini:
        for l in SB.constraints():
            consider(l.subst(invB))
        # weaker versions of constraints which are violated by a constant on the other side
        for l in list(cands):
            for S2, m2 in ((SA, mA), (SB, mB)):
                x = S2.res(l.subst(m2))
                if x.is_const():
                    if x.c < 0:
                        consider(l - x.c)
                elif not S2.ge0(x) and S2.ge0(x + 1):
                    consider(l + 1)
        # templates
        pool = []
        ps = set()
        for i in range(n):
            v = newleaf[i]
            if v not in ps and len(v.t) <= 2 and all(s in okset for s, _ in v.t):
                ps.add(v)
                pool.append(v)
        for p in params:
            v = sym(p)
            if v not in ps:
                ps.add(v)
                pool.append(v)
        pool = pool[:60]
        for i in changed:
            v = newleaf[i]
            if len(v.t) > 2 and all(s in okset for s, _ in v.t):
                consider(v - 1)
                consider(v)
        fr = [v for v in pool if any(s in newown for s, _ in v.t)]
        for a in fr:
            for b in pool + [Lin(0), Lin(1)]:
                if a is b:
                    continue
                for d in (a - b, b - a):
                    if d.t:
                        consider(d - 1)
                        consider(d)
    # widening thresholds: sizes of allocations which are known constants
    sizes = []
    for ob in A.objs.values():
        if ob.kind == "heap" and isinstance(ob.val, Arr) and ob.val.segs:
            e = SA.res(ob.val.segs[-1][1])
            if e.is_const() and e.c > 1 and e not in sizes:
                sizes.append(e)
    if sizes:
        for i in changed:
            v = newleaf[i]
            if v.t and len(v.t) <= 2 and all(s in okset for s, _ in v.t):
                for e in sizes:
                    consider(e - v)
    if houdini:
        # relations which were implied by bounds which do not hold anymore
        ps = [sym(p) for p in params][:8]
        vs = []
        for i in changed:
            v = newleaf[i]
            if len(v.t) == 1 and all(s in newown for s, _ in v.t) and v not in vs:
                vs.append(v)
        for v in vs[:6]:
            for p in ps:
                consider(p - v - 1)
                consider(p - v)
    added = set()
    for l in cands:
        if not SA.ge0(l.subst(mA)):
            continue
        if not SB.ge0(l.subst(mB)):
            continue
        if S.ge0(l):
            continue
        if not S.assume_ge0(l):
            raise Unsupported("join of contradictory states")
    nst = rebuild(I, A, h.c, newleaf)
    nst.store = S
    # objects may have been renamed by the equalities
    h.st = nst
    h.c = canon(I, nst, skip_loop=None)
    h.c.leaves = [S.res(l) for l in newleaf]
    h.own = frozenset(newown)
    h.params = set(params)


def bounds_hint(SA, SB, a, b):
    lo, hi = None, None
    ra, rb = SA.res(a), SB.res(b)
    lo = 0 if SA.ge0(a) and SB.ge0(b) else None
    hi = U64 if SA.ge0(Lin(U64) - a) and SB.ge0(Lin(U64) - b) else None
    return lo, hi


def I_fresh(name, lo, hi):
    import interp
    return interp.fresh(name, lo, hi)
