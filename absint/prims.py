"""Primitive functions: intrinsics, allocation, atomics and the events of the probe programs."""
import re
from lin import *
from values import *
from memory import *
from interp import Outcomes, UNWIND, DONE, Tail, Obj, new_id, fresh

ORD = re.compile(r"AtomicOrdering::(\w+)")
IMAX = (1 << 63) - 1
# number of elements for which there is always memory
MEM = 1 << 50


def base_path(name):
    return name


class Prims:
    def __init__(self):
        self.exact = {}
        self.regs = []
        for k, v in list(globals().items()):
            if k.startswith("p_"):
                for pat in v.pats:
                    self.exact[pat] = v
            elif k.startswith("r_"):
                for pat in v.pats:
                    self.regs.append((re.compile(pat), v))

    def find(self, I, cf):
        p = cf.path
        if cf.crate == "probes":
            q = cf.name
            if "::ev::" in q:
                ev = re.sub(r"::<.*", "", q).rsplit("::", 1)[-1]
                f = getattr(I.mon, "ev_" + ev, None)
                if f is None:
                    raise Unsupported("event " + q)
                return lambda I, st, c, f=f: f(st, c)
        f = self.exact.get(p)
        if f is not None:
            return f
        for r, f in self.regs:
            if r.search(p):
                return f
        if cf.path.endswith("::drop_glue"):
            return drop_glue_prim(I, cf)
        if cf.kind == "intrinsic" and not cf.has_body:
            raise Unsupported("intrinsic " + cf.name)
        return None


def pats(*ps):
    def d(f):
        f.pats = ps
        return f
    return d


def is_elem(t):
    return t["s"] in ("Elem", "probes::Elem")


# ------------------------------------------------------------------ drop
def drop_glue_prim(I, cf):
    ty = cf.args[0] if cf.args else None
    if not isinstance(ty, int):
        return None
    t = I.T[ty]
    if is_elem(t):
        def f(I, st, c):
            p = I.as_ptr(c.args[0])
            v = I.read(st, p.base, p.path) if not p.is_addr() else UN
            return drop_value(I, st, v, c)
        return f
    if t["k"] in ("slice", "array") and "drop" in I.T[t["elem"]]:
        def g(I, st, c):
            p = I.as_ptr(c.args[0])
            S = st.store
            n = p.meta if t["k"] == "slice" else I.array_len(ty)
            if not decide_ge(S, n - 1):
                return I.unit()
            if p.is_addr():
                raise Bad(ALL, "drop of elements without memory")
            path = I.retarget(st, p.base, p.path, t["elem"])
            if not path or path[-1][0] != "x":
                v = I.read(st, p.base, path)
                return drop_value(I, st, v, c)
            o = I.obj(st, p.base)
            a = I.read_path(st, o.val, o.ty, path[:-1])
            i = path[-1][1]
            if isinstance(a, Arr):
                pieces = arr_cut(S, a.segs, i, i + n)
            else:
                raise Unsupported("drop of elements of %r" % (a,))
            for lo, hi, tm in pieces:
                if tm is not UN and not isinstance(tm, (Tok, Agg)):
                    raise Unsupported("drop of %r" % (tm,))
            for lo, hi, tm in pieces:
                if decide_ge(S, hi - lo - 1):
                    drop_range(I, st, lo, hi, tm)
            if len(path) == 1 and (o.kind == "heap" and p.base not in st.g["_sh"] or any(tm == OPT for _, _, tm in pieces)):
                o = I.obj(st, p.base)
                st.objs[p.base] = type(o)(o.ty, arr_put(S, a, i, [(lo, hi, UN) for lo, hi, tm in pieces]), o.kind, o.es)
            return I.unit()
        return g
    if t["k"] == "dyn":
        return None
    return None


def drop_range(I, st, lo, hi, tm):
    S = st.store
    if tm is UN:
        raise Bad(("C08", "C17"), "uninitialised or already moved memory is dropped")
    if isinstance(tm, Agg):
        t = I.T[tm.ty]
        if "drop" not in t:
            return
        if t["k"] == "adt" and (t["name"].endswith(("Option", "ManuallyDrop", "MaybeUninit"))):
            if not tm.fs:
                return
            if t["name"].endswith("Option"):
                return drop_range(I, st, lo, hi, tm.fs[0])
        raise Unsupported("bulk drop of " + t["s"])
    if isinstance(tm, Tok):
        if tm == OPT:
            return
        if tm.pos is None:
            I.mon.dropped_count(st, tm.kind, hi - lo)
            return
        a = S.res(tm.pos.subst({IDX: lo}))
        one = S.eq(hi, lo + 1)
        sl = [k for s, k in tm.pos.t if s == IDX]
        if one:
            I.mon.dropped(st, tm.kind, a, a + 1)
        elif sl == [1]:
            I.mon.dropped(st, tm.kind, a, a + (hi - lo))
        else:
            raise Bad(("C08",), "the same element is dropped several times")
        return
    raise Unsupported("bulk drop of %r" % (tm,))


def drop_value(I, st, v, c):
    if v is UN:
        raise Bad(("C08", "C17"), "uninitialised or already moved memory is dropped")
    if isinstance(v, Tok):
        if v.pos is None:
            I.mon.dropped_count(st, v.kind, Lin(1))
        else:
            p = st.store.res(v.pos)
            I.mon.dropped(st, v.kind, p, p + 1)
        return I.unit()
    raise Unsupported("drop of %r" % (v,))


# ------------------------------------------------------------------ integers and simple intrinsics
def int_ty(I, c):
    return c.fn.args[0]


@pats("std::intrinsics::saturating_add", "std::intrinsics::saturating_sub")
def p_saturating(I, st, c):
    a, b = I.as_int(c.args[0]), I.as_int(c.args[1])
    lo, hi = I.int_range(int_ty(I, c))
    S = st.store
    if c.fn.path.endswith("add"):
        e = S.res(a + b)
        if decide_ge(S, Lin(hi) - e):
            return e if lo == 0 or decide_ge(S, e - lo) else Lin(lo)
        return Lin(hi)
    e = S.res(a - b)
    if decide_ge(S, e - lo):
        return e if lo == 0 or decide_ge(S, Lin(hi) - e) else Lin(hi)
    return Lin(lo)


@pats("std::intrinsics::integer_max", "std::intrinsics::integer_min")
def p_minmax(I, st, c):
    a, b = I.as_int(c.args[0]), I.as_int(c.args[1])
    g = decide_ge(st.store, a - b)
    if c.fn.path.endswith("max"):
        return a if g else b
    return b if g else a


@pats("std::intrinsics::add_with_overflow", "std::intrinsics::sub_with_overflow", "std::intrinsics::mul_with_overflow")
def p_ovf(I, st, c):
    op = {"a": "Add", "s": "Sub", "m": "Mul"}[c.fn.path.rsplit("::", 1)[1][0]]
    v, o = I.binop(st, op, c.args[0], c.args[1], int_ty(I, c), True)
    return Agg(c.dty, 0, (v, o))


@pats("std::intrinsics::wrapping_add", "std::intrinsics::wrapping_sub", "std::intrinsics::wrapping_mul")
def p_wrapping(I, st, c):
    op = {"a": "Add", "s": "Sub", "m": "Mul"}[c.fn.path.rsplit("::", 1)[1].split("_")[1][0]]
    return I.binop(st, op, c.args[0], c.args[1], int_ty(I, c))


@pats("std::intrinsics::unchecked_add", "std::intrinsics::unchecked_sub", "std::intrinsics::unchecked_mul")
def p_unchecked(I, st, c):
    op = {"a": "Add", "s": "Sub", "m": "Mul"}[c.fn.path.rsplit("::", 1)[1].split("_")[1][0]]
    return I.binop(st, op + "Unchecked", c.args[0], c.args[1], int_ty(I, c))


@pats("std::intrinsics::exact_div", "std::intrinsics::unchecked_div", "std::intrinsics::disjoint_bitor", "std::intrinsics::unchecked_rem",
      "std::intrinsics::unchecked_shl", "std::intrinsics::unchecked_shr")
def p_div(I, st, c):
    n = c.fn.path.rsplit("::", 1)[1]
    op = {"exact_div": "Div", "unchecked_div": "Div", "disjoint_bitor": "BitOr", "unchecked_rem": "Rem", "unchecked_shl": "Shl",
          "unchecked_shr": "Shr"}[n]
    return I.binop(st, op, c.args[0], c.args[1], int_ty(I, c))


@pats("std::intrinsics::three_way_compare")
def p_cmp(I, st, c):
    d = I.compare(st, "Cmp", c.args[0], c.args[1])
    return I.ordering_value(c.dty, d)


@pats("std::intrinsics::ctpop")
def p_ctpop(I, st, c):
    a = st.store.res(I.as_int(c.args[0]))
    if a.is_const():
        return Lin(bin(a.c).count("1"))
    return fresh("ctpop", 0, 64)


@pats("std::intrinsics::ctlz", "std::intrinsics::ctlz_nonzero", "std::intrinsics::cttz", "std::intrinsics::cttz_nonzero")
def p_bits(I, st, c):
    return fresh("bits", 0, 64)


@pats("std::intrinsics::cold_path", "std::intrinsics::assert_inhabited", "std::intrinsics::assert_zero_valid",
      "std::intrinsics::assert_mem_uninitialized_valid", "alloc::alloc::__rust_no_alloc_shim_is_unstable_v2",
      "std::hint::spin_loop", "core::hint::spin_loop", "std::thread::yield_now", "std::intrinsics::assume")
def p_nop(I, st, c):
    if c.fn.path.endswith("::assume") and c.args[0] is False:
        raise Bad(ALL, "violated assumption (undefined behaviour)")
    return I.unit()


@pats("std::intrinsics::likely", "std::intrinsics::unlikely", "std::intrinsics::black_box", "std::hint::black_box", "core::hint::black_box")
def p_id(I, st, c):
    return c.args[0]


@pats("std::intrinsics::size_of", "std::intrinsics::min_align_of", "std::intrinsics::align_of", "std::intrinsics::needs_drop",
      "std::intrinsics::pref_align_of")
def p_sizeof(I, st, c):
    t = I.T[c.fn.args[0]]
    n = c.fn.path.rsplit("::", 1)[1]
    if n == "size_of":
        return I.intlit(str(t["size"]), c.dty)
    if n == "needs_drop":
        return "drop" in t
    return Lin(t["align"])


@pats("std::mem::size_of", "core::mem::size_of")
def p_mem_sizeof(I, st, c):
    t = I.T[c.fn.args[0]]
    if I.zst_here(st) and is_elem(t):
        return Lin(0)
    return I.intlit(str(t["size"]), c.dty)


@pats("std::mem::size_of_val", "core::mem::size_of_val")
def p_mem_sizeofval(I, st, c):
    t = I.T[c.fn.args[0]]
    if I.zst_here(st) and is_elem(I.T[t["elem"]] if t["k"] == "slice" else t):
        return Lin(0)
    return p_sizeofval(I, st, c)


@pats("std::intrinsics::size_of_val")
def p_sizeofval(I, st, c):
    t = I.T[c.fn.args[0]]
    if t["k"] == "slice":
        p = I.as_ptr(c.args[0])
        return p.meta.scale(I.T[t["elem"]]["size"])
    if t.get("unsized"):
        raise Unsupported("size_of_val")
    return I.intlit(str(t["size"]), c.dty)


@pats("std::intrinsics::align_of_val", "std::intrinsics::min_align_of_val")
def p_alignofval(I, st, c):
    t = I.T[c.fn.args[0]]
    if t["k"] == "slice":
        return Lin(I.T[t["elem"]]["align"])
    return Lin(t.get("align", 1))


@pats("std::intrinsics::discriminant_value")
def p_discr(I, st, c):
    p = I.as_ptr(c.args[0])
    v = I.read(st, p.base, p.path)
    return I.discriminant(st, v, None)


@pats("std::intrinsics::is_val_statically_known")
def p_false(I, st, c):
    return False


@pats("std::intrinsics::const_eval_select")
def p_ces(I, st, c):
    # (args tuple, const fn, runtime fn)
    raise Unsupported("const_eval_select")


@pats("std::intrinsics::abort", "std::process::abort")
def p_abort(I, st, c):
    raise Bad(ALL, "abort")


# ------------------------------------------------------------------ pointers and memory
@pats("std::intrinsics::arith_offset", "std::intrinsics::offset", "std::intrinsics::ptr_arith")
def p_offset(I, st, c):
    to = I.T[c.argtys[0]].get("to")
    return I.ptr_offset(st, c.args[0], c.args[1], to, checked=c.fn.path.endswith("::offset"))


@pats("std::intrinsics::ptr_offset_from_unsigned", "std::intrinsics::ptr_offset_from")
def p_offfrom(I, st, c):
    a, b = I.as_ptr(c.args[0]), I.as_ptr(c.args[1])
    t = I.T[c.argtys[0]]["to"]
    size = I.T[t]["size"]
    S = st.store
    # the distance functions of std are called by the crate
    if is_elem(I.T[t]) and "_ptr" in I.p.fns[st.frames[-1].fid].path and I.zst_here(st, 2):
        raise Bad(ALL, "distance of pointers to a zero sized type (panic)")
    if a.is_addr() or b.is_addr():
        d = I.address(st, a) - I.address(st, b)
        d = S.res(d)
        if d.c % size == 0 and all(k % size == 0 for _, k in d.t):
            d = Lin(d.c // size, tuple((s, k // size) for s, k in d.t))
        else:
            raise Unsupported("pointer difference")
    else:
        pa = I.retarget(st, a.base, a.path, t)
        pb = I.retarget(st, b.base, b.path, t)
        d = I.cmp_ptr(st, Ptr(a.base, pa), Ptr(b.base, pb))
        if d is None:
            raise Bad(ALL, "difference of pointers into different objects")
        if not (pa and pa[-1][0] == "x"):
            d = Lin(0)
    if c.fn.path.endswith("unsigned") and not decide_ge(S, d):
        raise Bad(ALL, "negative difference of pointers")
    return d


@pats("std::intrinsics::copy_nonoverlapping", "std::intrinsics::copy", "std::ptr::copy_nonoverlapping", "std::ptr::copy")
def p_copy(I, st, c):
    I.copy_mem(st, c.args[0], c.args[1], c.args[2], c.fn.args[0])
    return I.unit()


@pats("std::intrinsics::read_via_copy", "std::intrinsics::volatile_load", "std::intrinsics::unaligned_volatile_load")
def p_read(I, st, c):
    p = I.as_ptr(c.args[0])
    if p.is_addr():
        if I.T[c.dty].get("size") == 0:
            return I.zst(c.dty)
        raise Bad(ALL, "read without object")
    path = I.retarget(st, p.base, p.path, c.dty)
    return I.read(st, p.base, path, c.dty)


@pats("std::intrinsics::write_via_move", "std::intrinsics::volatile_store")
def p_write(I, st, c):
    p = I.as_ptr(c.args[0])
    ty = c.argtys[1]
    if I.T[ty].get("size") == 0:
        return I.unit()
    if p.is_addr():
        raise Bad(ALL, "write without object")
    path = I.retarget(st, p.base, p.path, ty)
    I.write(st, p.base, path, c.args[1])
    return I.unit()


@pats("std::intrinsics::write_bytes", "std::ptr::write_bytes")
def p_write_bytes(I, st, c):
    S = st.store
    n = S.res(I.as_int(c.args[2]))
    p = I.as_ptr(c.args[0])
    if not decide_ge(S, n - 1) or p.is_addr():
        return I.unit()
    raise Unsupported("write_bytes")


@pats("std::intrinsics::transmute", "std::intrinsics::transmute_unchecked")
def p_transmute(I, st, c):
    return I.transmute(st, c.args[0], c.argtys[0], c.dty)


@pats("std::intrinsics::slice_get_unchecked")
def p_slice_get(I, st, c):
    p = I.as_ptr(c.args[0])
    i = I.as_int(c.args[1])
    t = I.T[I.T[c.argtys[0]]["to"]]["elem"]
    return I.ptr_offset(st, Ptr(p.base, p.path), i, t)


@pats("std::intrinsics::ptr_metadata")
def p_ptrmeta(I, st, c):
    p = I.as_ptr(c.args[0])
    return p.meta if p.meta is not None else I.zst(c.dty)


@pats("std::intrinsics::aggregate_raw_ptr")
def p_rawptr(I, st, c):
    p = I.as_ptr(c.args[0])
    return Ptr(p.base, p.path, c.args[1] if isinstance(c.args[1], Lin) else None)


@pats("std::intrinsics::typed_swap_nonoverlapping")
def p_swap(I, st, c):
    a, b = I.as_ptr(c.args[0]), I.as_ptr(c.args[1])
    t = c.fn.args[0]
    if I.T[t].get("size") == 0:
        return I.unit()
    pa = I.retarget(st, a.base, a.path, t)
    pb = I.retarget(st, b.base, b.path, t)
    x = I.read(st, a.base, pa, t)
    y = I.read(st, b.base, pb, t)
    I.write(st, a.base, pa, y)
    I.write(st, b.base, pb, x)
    return I.unit()


@pats(r"is_aligned_to$", r"ub_checks::maybe_is_aligned", r"ub_checks::maybe_is_nonoverlapping", r"ptr::\w+::.*::is_aligned$")
def r_true(I, st, c):
    return True


@pats(r"::align_offset$")
def r_zero(I, st, c):
    return Lin(0)


@pats(r"::from_raw_parts::precondition_check$", r"::from_raw_parts_mut::precondition_check$", r"copy_nonoverlapping::precondition_check$",
      r"ptr::read::precondition_check$", r"ptr::write::precondition_check$", r"ptr::replace::precondition_check$", r"copy::precondition_check$",
      r"write_bytes::precondition_check$", r"ptr::swap_nonoverlapping::precondition_check$", r"drop_in_place::precondition_check$",
      r"swap::precondition_check$", r"::add::precondition_check$", r"::offset::precondition_check$", r"::sub::precondition_check$",
      r"Layout::from_size_align_unchecked::precondition_check$", r"Alignment::new_unchecked::precondition_check$")
def r_pointer_precondition(I, st, c):
    # bounds and liveness of pointers are checked by the memory model itself; null pointers are rejected on access
    for a in c.args:
        a = I.as_ptr(a)
        if isinstance(a, Ptr) and a.is_addr() and st.store.eq(a.base, Lin(0)):
            raise Bad(("C17",), "null pointer passed to " + c.fn.path)
    return I.unit()


# ------------------------------------------------------------------ formatting
@pats(r"^std::fmt::", r"^core::fmt::", r"^alloc::fmt::", r"^<.* as std::fmt::(Debug|Display)>::fmt$")
def r_fmt(I, st, c):
    return Tok("opaque")


# ------------------------------------------------------------------ allocation
def heap(I, st, es, count, ty=None):
    o = new_id()
    st.objs[o] = Obj(ty, Arr(normalise(st.store, [(Lin(0), count, UN)])), "heap", es)
    return o


def set_rawvec(I, st, p, ptr, cap):
    """p points to RawVecInner"""
    o = I.obj(st, p.base)
    v = I.read(st, p.base, p.path)
    t = I.T[v.ty]
    fs = list(v.fs)
    for i, (n, ft) in enumerate(t["variants"][0]["fields"]):
        if n == "ptr" and ptr is not None:
            fs[i] = I.transmute(st, ptr, None, ft)
        if n == "cap":
            fs[i] = I.transmute(st, cap, None, ft)
    I.write(st, p.base, p.path, Agg(v.ty, 0, tuple(fs)))


def get_rawvec(I, st, p):
    v = I.read(st, p.base, p.path)
    t = I.T[v.ty]
    r = {}
    for i, (n, ft) in enumerate(t["variants"][0]["fields"]):
        r[n] = I.as_ptr(v.fs[i])
    return r["ptr"], r["cap"]


def layout_size(I, st, v):
    # Layout { size, align }
    t = I.T[v.ty]
    for i, (n, ft) in enumerate(t["variants"][0]["fields"]):
        if n == "size":
            return st.store.res(I.as_ptr(v.fs[i]))
    raise Unsupported("layout")


@pats("alloc::raw_vec::RawVecInner::<A>::with_capacity_in", "alloc::raw_vec::RawVecInner::<A>::with_capacity_zeroed_in")
def p_with_cap(I, st, c):
    S = st.store
    cap = S.res(I.as_int(c.args[0]))
    es = layout_size(I, st, c.args[2])
    if not es.is_const():
        raise Unsupported("layout")
    return mk_rawvec(I, st, c, c.dty, cap, es.c, c.args[1])


def mk_rawvec(I, st, c, ty, cap, es, alloc):
    S = st.store
    if es == 0:
        cap = Lin(0)
    elif not decide_ge(S, Lin(IMAX // es) - cap):
        return overflow_panic(I, st, c)
    if not decide_ge(S, cap - 1):
        ptr = Ptr(Lin(max(1, 8)))
        cap = Lin(0)
    else:
        if es == 0:
            ptr = Ptr(Lin(8))
        else:
            ptr = Ptr(heap(I, st, es, cap))
    t = I.T[ty]
    fs = []
    for n, ft in t["variants"][0]["fields"]:
        if n == "ptr":
            fs.append(I.transmute(st, ptr, None, ft))
        elif n == "cap":
            fs.append(I.transmute(st, cap, None, ft))
        else:
            fs.append(alloc)
    return Agg(ty, 0, tuple(fs))


def overflow_panic(I, st, c):
    r = I.mon.panic(st, "capacity overflow")
    if r is DONE:
        return DONE
    return Outcomes([(st, UNWIND)])


def grow_to(I, st, p, need, es):
    """RawVecInner at p gets a capacity of at least `need`"""
    S = st.store
    ptr, cap = get_rawvec(I, st, p)
    cap = S.res(cap)
    ncap = fresh("cap", 0, IMAX // max(es, 1))
    if not S.assume_ge0(ncap - need):
        raise Unsupported("growth")
    S.assume_ge0(ncap - cap - 1)
    o = new_id()
    if ptr.is_addr():
        st.objs[o] = Obj(None, Arr(normalise(S, [(Lin(0), ncap, UN)])), "heap", es)
    else:
        old = I.obj(st, ptr.base)
        segs = list(old.val.segs)
        hi = segs[-1][1] if segs else Lin(0)
        st.objs[o] = Obj(old.ty, Arr(normalise(S, segs + [(hi, ncap, UN)])), "heap", old.es)
        I.mon.free(st, ptr.base)
        st.objs[ptr.base] = Obj(old.ty, UN, "freed")
    path = (("x", Lin(0)),) if st.objs[o].ty is not None else ()
    set_rawvec(I, st, p, Ptr(o, path), ncap)


def rawvec_elem_size(I, st, c, p):
    o = I.obj(st, p.base)
    for a in c.fn.args:
        if isinstance(a, int):
            return I.T[a]["size"]
    return None


@pats("alloc::raw_vec::RawVec::<T, A>::grow_one")
def p_grow_one(I, st, c):
    p = I.as_ptr(c.args[0])
    es = I.T[c.fn.args[0]]["size"]
    inner = inner_of(I, st, p)
    ptr, cap = get_rawvec(I, st, inner)
    if es == 0:
        return overflow_panic(I, st, c)
    # the elements exist: there is memory for them
    if not st.store.assume_ge0(Lin(MEM) - cap):
        return Outcomes([])
    grow_to(I, st, inner, cap + 1, es)
    return I.unit()


def inner_of(I, st, p):
    """pointer to the RawVecInner within the RawVec"""
    v = I.read(st, p.base, p.path)
    path = p.path
    while True:
        t = I.T[v.ty]
        if t["name"].endswith("RawVecInner"):
            return Ptr(p.base, path)
        for i, (n, ft) in enumerate(t["variants"][0]["fields"]):
            if n in ("inner", "buf"):
                path = path + (("f", i, -1),)
                v = v.fs[i]
                break
        else:
            raise Unsupported("RawVec")


@pats("alloc::raw_vec::RawVecInner::<A>::reserve::do_reserve_and_handle")
def p_reserve(I, st, c):
    # (&mut self, len, additional, layout)
    p = I.as_ptr(c.args[0])
    S = st.store
    if not S.assume_ge0(Lin(MEM) - I.as_int(c.args[1])):
        return Outcomes([])
    need = S.res(I.as_int(c.args[1]) + I.as_int(c.args[2]))
    es = layout_size(I, st, c.args[3]).c
    if es == 0 or not decide_ge(S, Lin(IMAX // max(es, 1)) - need):
        return overflow_panic(I, st, c)
    ptr, cap = get_rawvec(I, st, p)
    if decide_ge(S, cap - need):
        return I.unit()
    grow_to(I, st, p, need, es)
    return I.unit()


@pats("alloc::raw_vec::RawVecInner::<A>::grow_amortized", "alloc::raw_vec::RawVecInner::<A>::grow_exact",
      "alloc::raw_vec::RawVecInner::<A>::try_reserve", "alloc::raw_vec::RawVecInner::<A>::try_reserve_exact",
      "alloc::raw_vec::RawVecInner::<A>::reserve_exact", "alloc::raw_vec::RawVecInner::<A>::reserve")
def p_grow_amortized(I, st, c):
    r = p_reserve(I, st, c)
    if r is DONE or isinstance(r, Outcomes):
        return r
    if I.T[c.dty]["k"] == "tuple":
        return I.unit()
    if I.T[c.dty].get("name", "").endswith("Result"):
        return Agg(c.dty, 0, (I.zst(I.T[c.dty]["variants"][0]["fields"][0][1]),))
    raise Unsupported("growth")


@pats("alloc::raw_vec::RawVecInner::<A>::deallocate")
def p_dealloc_inner(I, st, c):
    p = I.as_ptr(c.args[0])
    S = st.store
    ptr, cap = get_rawvec(I, st, p)
    es = layout_size(I, st, c.args[1]).c
    if es == 0 or not decide_ge(S, cap - 1):
        return I.unit()
    do_free(I, st, ptr, cap, es)
    return I.unit()


def do_free(I, st, ptr, cap, es):
    S = st.store
    if ptr.is_addr():
        raise Bad(("C15", "C17"), "memory which was not allocated is released")
    o = st.objs.get(ptr.base)
    if o is None or o.kind == "freed":
        raise Bad(("C15", "C17", "C08"), "heap memory is released twice")
    if o.kind != "heap":
        raise Bad(("C15", "C17", "C19"), "memory which is not on the heap is released")
    if ptr.path and not all(e[0] == "x" and S.eq(e[1], Lin(0)) or e[0] == "f" for e in ptr.path):
        raise Bad(("C15", "C17"), "heap memory is released by a pointer into its middle")
    if cap is not None:
        segs = o.val.segs if isinstance(o.val, Arr) else None
        if segs is not None and o.es != 1:
            n = segs[-1][1] if segs else Lin(0)
            if not S.eq(n, cap):
                I.mon.violation(st, ("C17", "C15"), "heap memory is released with a wrong capacity (%r instead of %r)" % (S.res(cap), S.res(n)))
    if isinstance(o.val, Arr) and any(t == OPT and not S.ge0(a - b) for a, b, t in o.val.segs):
        I.mon.overwritten(st)
    I.mon.free(st, ptr.base)
    st.objs[ptr.base] = Obj(o.ty, UN, "freed")


@pats("alloc::raw_vec::RawVecInner::<A>::shrink_unchecked", "alloc::raw_vec::RawVecInner::<A>::shrink", "alloc::raw_vec::RawVecInner::<A>::shrink_to_fit")
def p_shrink(I, st, c):
    p = I.as_ptr(c.args[0])
    S = st.store
    n = S.res(I.as_int(c.args[1]))
    es = layout_size(I, st, c.args[-1]).c
    ptr, cap = get_rawvec(I, st, p)
    if es == 0 or not decide_ge(S, cap - 1):
        pass
    elif decide_ge(S, n - cap):
        pass
    else:
        old = I.obj(st, ptr.base)
        if not decide_ge(S, n - 1):
            do_free(I, st, ptr, cap, es)
            set_rawvec(I, st, p, Ptr(Lin(8)), Lin(0))
        else:
            o = new_id()
            segs = arr_cut(S, old.val.segs, Lin(0), n)
            st.objs[o] = Obj(old.ty, Arr(normalise(S, segs)), "heap", old.es)
            do_free(I, st, ptr, cap, es)
            set_rawvec(I, st, p, Ptr(o, (("x", Lin(0)),) if old.ty is not None else ()), n)
    if I.T[c.dty]["k"] == "tuple":
        return I.unit()
    return Agg(c.dty, 0, (I.zst(I.T[c.dty]["variants"][0]["fields"][0][1]),))


@pats("alloc::alloc::__rust_alloc", "std::alloc::alloc", "alloc::alloc::alloc", "alloc::alloc::exchange_malloc", "alloc::boxed::box_new_uninit",
      "alloc::alloc::__rust_alloc_zeroed")
def p_alloc(I, st, c):
    S = st.store
    a = c.args[0]
    size = layout_size(I, st, a) if isinstance(a, Agg) and I.T[a.ty].get("name", "").endswith("Layout") else S.res(I.as_int(a))
    if not decide_ge(S, size - 1):
        return Ptr(Lin(8))
    o = new_id()
    st.objs[o] = Obj(None, Arr(((Lin(0), size, UN),)), "heap", 1)
    return I.transmute(st, Ptr(o), None, c.dty)


@pats("alloc::alloc::__rust_dealloc", "std::alloc::dealloc", "alloc::alloc::dealloc", "<std::alloc::Global as std::alloc::Allocator>::deallocate",
      "std::alloc::Global::deallocate_impl", "alloc::alloc::Global::deallocate_impl", "std::alloc::Global::deallocate_impl_runtime")
def p_dealloc(I, st, c):
    ps = [I.as_ptr(a) for a in c.args]
    p = next(x for x in ps if isinstance(x, Ptr))
    if p.is_addr():
        # zero sized
        for a in c.args:
            if isinstance(a, Agg) and I.T[a.ty].get("name", "").endswith("Layout"):
                if st.store.eq(layout_size(I, st, a), Lin(0)):
                    return I.unit()
    do_free(I, st, p, None, 1)
    return I.unit()


# ------------------------------------------------------------------ atomics
def atomic_ptr(I, st, c):
    p = I.as_ptr(c.args[0])
    if p.is_addr():
        raise Bad(ALL, "atomic access without object")
    t = c.fn.args[0]
    path = I.retarget(st, p.base, p.path, t)
    return Ptr(p.base, path), t


def to_cell(I, t, v):
    if isinstance(v, bool):
        return Lin(1 if v else 0)
    return v


@pats("std::intrinsics::atomic_load")
def p_aload(I, st, c):
    p, t = atomic_ptr(I, st, c)
    o = ORD.findall(c.fn.name)
    return I.mon.atomic_load(st, c, p, t, o[0])


@pats("std::intrinsics::atomic_store")
def p_astore(I, st, c):
    p, t = atomic_ptr(I, st, c)
    o = ORD.findall(c.fn.name)
    return I.mon.atomic_store(st, c, p, t, to_cell(I, t, c.args[1]), o[0])


@pats("std::intrinsics::atomic_cxchg", "std::intrinsics::atomic_cxchgweak")
def p_acas(I, st, c):
    p, t = atomic_ptr(I, st, c)
    o = ORD.findall(c.fn.name)
    return I.mon.atomic_cas(st, c, p, t, to_cell(I, t, c.args[1]), to_cell(I, t, c.args[2]), o[0], o[1], c.fn.path.endswith("weak"))


def arith(op):
    def f(I, st, t, old, arg):
        S = st.store
        old = I.as_int(old)
        if op == "xchg":
            return arg
        if op == "xadd":
            return I.wrap(st, old + arg, t)[0]
        if op == "xsub":
            return I.wrap(st, old - arg, t)[0]
        if op in ("umax", "max"):
            return old if decide_ge(S, old - arg) else arg
        if op in ("umin", "min"):
            return arg if decide_ge(S, old - arg) else old
        if op in ("or", "and", "xor"):
            return I.binop(st, {"or": "BitOr", "and": "BitAnd", "xor": "BitXor"}[op], old, arg, t)
        raise Unsupported("atomic " + op)
    return f


@pats(r"^std::intrinsics::atomic_(xchg|xadd|xsub|umax|umin|max|min|or|and|xor)$")
def r_armw(I, st, c):
    p, t = atomic_ptr(I, st, c)
    o = ORD.findall(c.fn.name)
    op = c.fn.path.rsplit("atomic_", 1)[1]
    return I.mon.atomic_rmw(st, c, p, t, arith(op), to_cell(I, t, c.args[1]), o[0])


@pats("std::intrinsics::atomic_fence", "std::intrinsics::atomic_singlethreadfence")
def p_fence(I, st, c):
    o = ORD.findall(c.fn.name)
    if c.fn.path.endswith("atomic_fence"):
        I.mon.fence(st, o[0])
    return I.unit()


# ------------------------------------------------------------------ probe types
@pats("<Elem as std::clone::Clone>::clone", "<probes::Elem as std::clone::Clone>::clone")
def p_clone(I, st, c):
    return I.mon.clone_elem(st, c)


@pats("<Elem as std::ops::Drop>::drop", "<probes::Elem as std::ops::Drop>::drop")
def p_elem_drop(I, st, c):
    p = I.as_ptr(c.args[0])
    v = I.read(st, p.base, p.path)
    return drop_value(I, st, v, c)


@pats(r"^<(probes::)?(Src|SrcRef|SrcPod) as std::iter::Iterator>::next$")
def r_src_next(I, st, c):
    return I.mon.src_next(st, c)


@pats(r"^<(probes::)?(Src|SrcRef|SrcPod) as std::iter::Iterator>::size_hint$")
def r_src_hint(I, st, c):
    return I.mon.src_hint(st, c)


@pats(r"^<(probes::)?(Src|SrcRef|SrcPod) as std::ops::Drop>::drop$")
def r_src_drop(I, st, c):
    return I.mon.src_drop(st, c)
