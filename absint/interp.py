"""Abstract interpreter for MIR: path partitioned, joins at loop heads, calls are inlined."""
import itertools
import re
import sys
from lin import *
from values import *
from memory import *
import join as J

sys.setrecursionlimit(20000)

ARRAY_N = 8675309
_ctr = itertools.count()
_obj_ctr = itertools.count(1)


def fresh(name, lo=0, hi=U64):
    n = next(_ctr)
    return sym(SYMS.get(("f", n), "%s#%d" % (name, n), lo, hi))


def new_id():
    return next(_obj_ctr)


class Obj:
    """memory object: ty is a type id, or None for an untyped heap block with element size es"""
    __slots__ = ("ty", "val", "kind", "es")

    def __init__(self, ty, val, kind, es=None):
        self.ty = ty
        self.val = val
        self.kind = kind  # 'local', 'heap', 'src', 'const'
        self.es = es


class Frame:
    __slots__ = ("fid", "bb", "si", "locs", "dest", "target", "unwind", "uid", "cleanup")

    def copy(self):
        f = Frame.__new__(Frame)
        f.fid = self.fid
        f.bb = self.bb
        f.si = self.si
        f.locs = dict(self.locs)
        f.dest = self.dest
        f.target = self.target
        f.unwind = self.unwind
        f.uid = self.uid
        return f


class State:
    __slots__ = ("frames", "objs", "store", "g", "unw", "trace", "loops", "steps")

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.objs = dict(self.objs)
        s.store = self.store.copy()
        s.g = dict(self.g)
        s.unw = self.unw
        s.trace = self.trace
        s.loops = dict(self.loops)
        s.steps = self.steps
        return s


class Outcomes:
    """result of a primitive with several successors: list of (state, value or UNWIND)"""

    def __init__(self, outs):
        self.outs = outs


UNWIND = object()
DONE = object()  # the primitive has set up the control flow itself


CRATE = "orx_concurrent_iter"
ZST = re.compile(r"::z[a-z]+::probe_")


class Interp:
    def __init__(self, prog, prims, mon, limits):
        self.p = prog
        self.T = prog.types
        self.prims = prims
        self.mon = mon
        self.limits = limits
        self.N = sym(SYMS.get("N", "N", 0, (1 << 63) // 64))
        self.visited_fns = set()
        self.visited_sites = set()
        self.stats = {"paths": 0, "steps": 0, "joins": 0, "heads": 0, "forks": 0, "calls": 0}
        self.primcache = {}
        self.unknown_prims = set()
        self.spin_edges = {}
        # the code of the crate sees the element type as a zero sized type
        self.zst_mode = ZST.search(mon.probe) is not None

    def zst_here(self, st, depth=1):
        """the calling function (or the one `depth` levels up) belongs to the crate, and the element type is zero sized"""
        return self.zst_mode and len(st.frames) >= depth and self.p.fns[st.frames[-depth].fid].crate == CRATE

    # ------------------------------------------------------------------ values
    def intlit(self, s, ty):
        v = int(s)
        t = self.T[ty]
        if t["k"] == "uint" and v and v % ARRAY_N == 0 and v < (1 << 40):
            return self.N.scale(v // ARRAY_N)
        return Lin(v)

    def int_range(self, ty):
        t = self.T[ty]
        k = t["k"]
        if k == "uint":
            return 0, (1 << (8 * t["bytes"])) - 1
        if k == "int":
            b = 8 * t["bytes"]
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        if k == "char":
            return 0, 0x10FFFF
        if k == "bool":
            return 0, 1
        return None

    def const(self, st, c):
        ty = c["ty"]
        t = self.T[ty]
        if "int" in c:
            return self.intlit(c["int"], ty)
        if "bool" in c:
            return c["bool"]
        if "zst" in c:
            return self.zst(ty)
        if "str" in c:
            return Ptr(Lin(64), (), fresh("strlen", 0, 1 << 30))
        if "fields" in c:
            fs = tuple(self.const(st, f) for f in c["fields"])
            if t["k"] == "array":
                return Arr(normalise(st.store, [(Lin(i), Lin(i + 1), f) for i, f in enumerate(fs)]))
            return Agg(ty, c["variant"] or 0, fs)
        if "ref" in c:
            v = self.const(st, c["ref"])
            o = new_id()
            st.objs[o] = Obj(c["ref"]["ty"], v, "const")
            return Ptr(o)
        if "addr" in c:
            return Ptr(self.intlit(c["addr"], ty))
        if t["k"] == "fnptr":
            return Tok("fnptr")
        if t["k"] == "adt" and t["adt"] == "union":
            return UN if "Indirect" not in c.get("opaque", "") else Tok("opaque")
        m = re.fullmatch(r"(?:Scalar\()?0x([0-9a-fA-F]+)\)?", c.get("opaque", ""))
        if m and t["k"] in ("other", "uint", "int", "ptr"):
            x = Lin(int(m.group(1), 16))
            return Ptr(x) if t["k"] == "ptr" or "*" in t["s"] else x
        # opaque constants: pointers without object, thread ids, ...
        return Tok("opaque")

    def zst(self, ty):
        t = self.T[ty]
        k = t["k"]
        if k == "tuple":
            return Agg(ty, 0, tuple(self.zst(f) for f in t["fields"]))
        if k == "closure":
            return Agg(ty, 0, tuple(self.zst(f) for f in t["fields"]))
        if k == "adt" and t["variants"]:
            if t["adt"] == "union":
                return Agg(ty, 0, (UN,))
            return Agg(ty, 0, tuple(self.zst(f[1]) for f in t["variants"][0]["fields"]))
        if k == "array":
            return Arr(())
        return Agg(ty, 0, ())

    def unit(self):
        return Agg(-1, 0, ())

    # ------------------------------------------------------------------ types of paths
    def obj(self, st, o):
        x = st.objs.get(o)
        if x is None:
            raise Bad(ALL, "use of a pointer to memory which does not exist anymore (dangling)")
        if x.kind == "freed":
            raise Bad(ALL, "use of released heap memory")
        return x

    def type_at(self, st, base, path):
        t = self.obj(st, base).ty
        for e in path:
            if t is None:
                return None
            if e[0] == "f":
                t = self.p.field_ty(t, e[1], e[2])
            else:
                t = self.T[t].get("elem")
        return t

    def array_len(self, ty):
        n = self.T[ty]["len"]
        if n is None:
            raise Unsupported("array length")
        return self.N if n == ARRAY_N else Lin(n)

    def descend(self, t):
        """sub-objects at offset zero: list of (path element, type)"""
        ty = self.T[t]
        k = ty["k"]
        if k in ("array", "slice"):
            return [(("x", Lin(0)), ty["elem"])]
        if k in ("tuple", "closure"):
            n = len(ty["fields"])
        elif k == "adt" and ty["adt"] != "enum" and ty["variants"]:
            n = len(ty["variants"][0]["fields"])
        else:
            return []
        out = []
        offs = ty.get("offs")
        for i in range(n):
            ft = self.p.field_ty(t, i)
            if (offs and i < len(offs) and offs[i] == 0) or ty.get("adt") == "union":
                out.append((("f", i, -1), ft))
        # larger first
        out.sort(key=lambda x: -(self.T[x[1]].get("size") or 0))
        return out

    def find_down(self, t, P, depth=0):
        if self.p.same(t, P):
            return ()
        if depth > 8:
            return None
        for e, ft in self.descend(t):
            r = self.find_down(ft, P, depth + 1)
            if r is not None:
                return (e,) + r
        return None

    def retarget(self, st, base, path, P):
        """path of the object of type P at the address of (base, path)"""
        o = self.obj(st, base)
        if o.ty is None:
            # untyped heap block
            size = self.T[P].get("size")
            if self.T[P]["k"] in ("slice", "array"):
                P2 = self.T[P]["elem"]
                r = self.retarget(st, base, path, P2)
                return r
            if not size:
                return path
            if o.es is not None and o.es == size:
                st.objs[base] = Obj(self.p.slice_ty(P), o.val, o.kind)
                return path if path else (("x", Lin(0)),)
            if o.es == 1:
                # bytes -> elements
                n = o.val.segs[-1][1] if o.val.segs else Lin(0)
                n = st.store.res(n)
                if n.c % size == 0 and all(k % size == 0 for _, k in n.t):
                    m = Lin(n.c // size, tuple((s, k // size) for s, k in n.t))
                    st.objs[base] = Obj(self.p.slice_ty(P), Arr(normalise(st.store, [(Lin(0), m, UN)])), o.kind)
                    return (("x", Lin(0)),)
            raise Unsupported("untyped memory accessed as %s" % self.T[P]["s"])
        pk = self.T[P]["k"]
        if pk == "slice":
            P = self.T[P]["elem"]
        elif pk in ("str", "dyn"):
            return path
        t = self.type_at(st, base, path)
        if t is not None and self.p.same(t, P):
            return path
        if t is not None and self.T[t]["k"] == "array" and pk == "array" and self.p.same(self.T[t]["elem"], self.T[P]["elem"]):
            return path
        down = self.find_down(t, P)
        if down is not None:
            return path + down
        # ascend
        q = path
        while q:
            e = q[-1]
            parent = self.type_at(st, base, q[:-1])
            if e[0] == "f":
                if self.T[parent].get("adt") == "enum":
                    break
                offs = self.T[parent].get("offs")
                if self.T[parent].get("adt") != "union" and (not offs or offs[e[1]] != 0):
                    break
            q = q[:-1]
            if self.p.same(parent, P):
                return q
            if pk == "array" and self.T[parent]["k"] in ("slice", "array") and self.p.same(self.T[parent]["elem"], self.T[P]["elem"]):
                # (part of) an array seen as an array
                if e[0] == "x" and st.store.eq(e[1], Lin(0)):
                    return q
                return path
            d2 = self.find_down(parent, P)
            if d2 is not None:
                return q + d2
            if e[0] == "x" and not st.store.eq(e[1], Lin(0)):
                break
        if self.T[P].get("size") == 0:
            return path
        ts, ps = self.T[t].get("size"), self.T[P].get("size")
        if ts is not None and ts == ps:
            return path  # same size, the value is converted on access
        raise Unsupported("access of %s as %s" % (self.T[t]["s"], self.T[P]["s"]))

    # ------------------------------------------------------------------ memory
    def read_path(self, st, val, ty, path):
        S = st.store
        for d, e in enumerate(path):
            if val is UN:
                return UN
            if isinstance(val, Tok) and val.kind == "opt":
                raise Inspect(path[:d])
            if e[0] == "f":
                if isinstance(val, Agg):
                    vt = self.T[val.ty] if val.ty >= 0 else None
                    if vt is not None and vt.get("adt") == "union":
                        if val.var == e[1]:
                            val = val.fs[0]
                        else:
                            ft = self.p.field_ty(val.ty, e[1])
                            x = val.fs[0]
                            if x is UN or self.T[ft].get("size") == 0:
                                val = UN if self.T[ft].get("size") else self.zst(ft)
                            else:
                                val = self.transmute(st, x, self.p.field_ty(val.ty, val.var), ft)
                    else:
                        if e[2] >= 0 and val.var != e[2]:
                            raise Bad(ALL, "access to a field of an inactive enum variant")
                        if e[1] >= len(val.fs):
                            raise Unsupported("field %d of %s" % (e[1], vt and vt["s"]))
                        val = val.fs[e[1]]
                elif isinstance(val, Tok):
                    # a field of an opaque value
                    if val.kind == "opaque":
                        return val
                    raise Unsupported("field of %r" % val)
                else:
                    # transparent wrapper which is represented by its content
                    raise Unsupported("field of %r" % (val,))
            else:
                if isinstance(val, Arr):
                    val = arr_get(S, val, e[1])
                elif isinstance(val, Tok) and val.kind == "opaque":
                    return val
                else:
                    raise Unsupported("element of %r" % (val,))
        return val

    def write_path(self, st, val, ty, path, v):
        if not path:
            return v
        e = path[0]
        if e[0] == "f":
            ft = self.p.field_ty(ty, e[1], e[2])
            t = self.T[ty]
            if t.get("adt") == "union":
                old = UN
                if isinstance(val, Agg):
                    if val.var == e[1]:
                        old = val.fs[0]
                    elif self.T[self.p.field_ty(ty, val.var)].get("size") == 0:
                        old = UN
                    elif len(path) > 1 and val.fs[0] is not UN:
                        old = self.transmute(st, val.fs[0], self.p.field_ty(ty, val.var), ft)
                return Agg(ty, e[1], (self.write_path(st, old, ft, path[1:], v),))
            if not isinstance(val, Agg) or (e[2] >= 0 and val.var != e[2]):
                var = e[2] if e[2] >= 0 else 0
                fs = [UN] * self.p.nfields(ty, var)
                val = Agg(ty, var, tuple(fs))
            fs = list(val.fs)
            fs[e[1]] = self.write_path(st, fs[e[1]], ft, path[1:], v)
            return Agg(val.ty, val.var, tuple(fs))
        et = self.T[ty]["elem"]
        if val is UN:
            if self.T[ty]["k"] == "array":
                val = Arr(normalise(st.store, [(Lin(0), self.array_len(ty), UN)]))
            else:
                raise Unsupported("write to an element of unknown memory")
        if len(path) > 1:
            old = arr_get(st.store, val, e[1])
            v = self.write_path(st, old, et, path[1:], v)
        return arr_set(st.store, val, e[1], v)

    def read(self, st, base, path, ty=None):
        o = self.obj(st, base)
        try:
            v = self.read_path(st, o.val, o.ty, path)
        except Inspect as e:
            self.inspect(st, base, e.path)
        if isinstance(v, Tok) and v.kind == "opt":
            self.inspect(st, base, path)
        if ty is not None and v is not UN:
            v = self.coerce(st, v, base, path, ty)
        return v

    def inspect(self, st, base, path):
        """the optional element of an earlier chunk at this place is either none or some"""
        ty = self.type_at(st, base, path)

        def none(n):
            n.objs[base] = Obj(o.ty, self.write_path(n, o.val, o.ty, path, Agg(ty, 0, ())), o.kind, o.es)

        def some(n):
            n.objs[base] = Obj(o.ty, self.write_path(n, o.val, o.ty, path, Agg(ty, 1, (self.mon.stale(n),))), o.kind, o.es)
        o = self.obj(st, base)
        raise Split([[("do", none)], [("do", some)]])

    def coerce(self, st, v, base, path, ty):
        """the value of the place is read with the type ty"""
        if isinstance(v, Agg) and v.ty != ty and v.ty >= 0 and not self.p.same(v.ty, ty):
            t0 = self.type_at(st, base, path)
            return self.transmute(st, v, v.ty, ty)
        if isinstance(v, Lin) and self.T[ty]["k"] == "adt":
            return self.transmute(st, v, None, ty)
        if isinstance(v, Lin) and self.T[ty]["k"] == "bool":
            return decide_eq(st.store, v - 1)
        if isinstance(v, bool) and self.T[ty]["k"] in ("uint", "int"):
            return Lin(1 if v else 0)
        return v

    def write(self, st, base, path, v):
        o = self.obj(st, base)
        if path and isinstance(o.val, Arr) and path[0][0] == "x" and any(t is OPT or t == OPT for _, _, t in o.val.segs):
            if arr_get(st.store, o.val, path[0][1]) == OPT:
                if len(path) > 1:
                    self.inspect(st, base, path[:1])
                self.mon.overwritten(st)
        new = self.write_path(st, o.val, o.ty, path, v)
        if self.mon.on_write:
            self.mon.on_write(st, base, path, v)
        st.objs[base] = Obj(o.ty, new, o.kind, o.es)

    # ------------------------------------------------------------------ places
    def loc(self, st, fr, l):
        o = fr.locs.get(l)
        if o is None:
            fn = self.p.fns[fr.fid]
            o = new_id()
            ty = fn.locals[l]
            fr.locs[l] = o
            st.objs[o] = Obj(ty, UN, "local")
        return o

    def lval(self, st, fr, place):
        """(base, path, meta, type); base may be a Lin address"""
        l, proj = place
        fn = self.p.fns[fr.fid]
        base = self.loc(st, fr, l)
        path = ()
        meta = None
        ty = fn.locals[l]
        v = -1
        for e in proj:
            k = e[0]
            if k == "d":
                if isinstance(base, Lin):
                    p = UN
                else:
                    p = self.read(st, base, path, ty)
                P = self.T[ty].get("to")
                if P is None and self.T[ty].get("box"):
                    P = self.T[ty]["args"][0]
                p = self.as_ptr(p)
                if not isinstance(p, Ptr):
                    raise Unsupported("dereference of %r" % (p,))
                meta = p.meta
                ty = P
                if p.is_addr():
                    base = p.base
                    path = ()
                else:
                    base = p.base
                    path = self.retarget(st, p.base, p.path, P)
            elif k == "f":
                if isinstance(base, Lin):
                    pass
                else:
                    path = path + (("f", e[1], v),)
                ty = e[2]
                v = -1
            elif k == "v":
                v = e[1]
            elif k == "oc":
                ty = e[1]
            elif k in ("i", "ci"):
                if k == "i":
                    idx = self.read(st, self.loc(st, fr, e[1]), ())
                else:
                    if e[3]:
                        n = meta if self.T[ty]["k"] == "slice" else self.array_len(ty)
                        idx = n - e[1]
                    else:
                        idx = Lin(e[1])
                if self.T[ty]["k"] == "slice":
                    if isinstance(base, Lin):
                        raise Bad(ALL, "access to an element of an empty slice")
                    if path and path[-1][0] == "x":
                        path = path[:-1] + (("x", st.store.res(path[-1][1] + idx)),)
                    elif not st.store.eq(idx, Lin(0)):
                        raise Unsupported("index into a slice of a single value")
                else:
                    path = path + (("x", idx),)
                ty = self.T[ty]["elem"]
                meta = None
            elif k == "sub":
                n = meta if self.T[ty]["k"] == "slice" else self.array_len(ty)
                frm = Lin(e[1])
                to = n - e[2] if e[3] else Lin(e[2])
                if self.T[ty]["k"] == "slice":
                    if path and path[-1][0] == "x":
                        path = path[:-1] + (("x", path[-1][1] + frm),)
                    meta = to - frm
                else:
                    path = path + (("x", frm),)
                    meta = to - frm
                    ty = self.p.slice_ty(self.T[ty]["elem"])
            else:
                raise Unsupported("projection " + k)
        return base, path, meta, ty

    def place_ty(self, fn, place):
        ty = fn.locals[place[0]]
        for e in place[1]:
            k = e[0]
            if k == "d":
                t = self.T[ty]
                ty = t.get("to") if "to" in t else t["args"][0]
            elif k == "f":
                ty = e[2]
            elif k == "oc":
                ty = e[1]
            elif k in ("i", "ci"):
                ty = self.T[ty]["elem"]
        return ty

    def as_ptr(self, v):
        """unwraps pointer newtypes (Box, Unique, NonNull)"""
        while isinstance(v, Agg) and v.fs:
            v = v.fs[0]
        return v

    def op_ty(self, fn, o):
        if o[0] in ("c", "m"):
            return self.place_ty(fn, o[1])
        if o[0] == "k":
            return o[1]["ty"]
        return None

    def operand(self, st, fr, o, moves=None):
        k = o[0]
        if k in ("c", "m"):
            base, path, meta, ty = self.lval(st, fr, o[1])
            if isinstance(base, Lin):
                if self.T[ty].get("size") == 0:
                    return self.zst(ty)
                raise Bad(ALL, "read through a pointer without object")
            if self.mon.on_read:
                self.mon.on_read(st, base, path, ty)
            v = self.read(st, base, path, ty)
            if v is UN and self.T[ty].get("size") == 0:
                v = self.zst(ty)
            if k == "m" and moves is not None and not any(e[0] == "d" for e in o[1][1]):
                moves.append((base, path))
            return v
        if k == "k":
            return self.const(st, o[1])
        if k == "rc":
            return self.limits["ub_checks"] if o[1] == "UbChecks" else self.limits["overflow_checks"] if o[1] == "OverflowChecks" else False
        raise Unsupported("operand " + k)

    def do_moves(self, st, moves):
        for base, path in moves:
            o = st.objs.get(base)
            if o is not None and o.kind == "local":
                if any(e[0] == "x" for e in path):
                    continue
                st.objs[base] = Obj(o.ty, self.write_path(st, o.val, o.ty, path, UN), o.kind, o.es)

    # ------------------------------------------------------------------ conversions
    def transmute(self, st, v, fty, tty):
        t = self.T[tty]
        if v is UN:
            return UN
        if isinstance(v, Agg) and v.ty == tty:
            return v
        if fty is not None and self.p.same(fty, tty):
            return v
        k = t["k"]
        if k == "adt" and t["adt"] == "struct":
            fs = t["variants"][0]["fields"]
            nz = [i for i, f in enumerate(fs) if not self.p.is_zst(f[1])]
            if isinstance(v, Agg) and v.ty >= 0 and self.T[v.ty]["k"] == "adt" and self.T[v.ty]["adt"] == "struct" and self.T[v.ty]["name"] == t["name"] and len(v.fs) == len(fs):
                return Agg(tty, 0, tuple(self.transmute(st, x, self.p.field_ty(v.ty, i), fs[i][1]) for i, x in enumerate(v.fs)))
            if len(nz) == 1:
                inner = self.transmute(st, v, fty, fs[nz[0]][1])
                if isinstance(inner, Tok) and t.get("crate") == "probes" and inner.kind in ("src", "clone", "pod", "left"):
                    return inner
                return Agg(tty, 0, tuple(inner if i == nz[0] else self.zst(f[1]) for i, f in enumerate(fs)))
            if not nz:
                return self.zst(tty)
        if k == "adt" and t["adt"] == "union":
            for i, f in enumerate(t["variants"][0]["fields"]):
                if self.T[f[1]].get("size") == t.get("size") and t.get("size"):
                    return Agg(tty, i, (self.transmute(st, v, fty, f[1]),))
        if k == "adt" and t["adt"] == "enum":
            if isinstance(v, Lin) and t.get("variants"):
                S = st.store
                for i, x in enumerate(t["variants"]):
                    if x["discr"] is not None and not x["fields"]:
                        if decide_eq(S, v - int(x["discr"])):
                            return Agg(tty, i, ())
            if isinstance(v, Agg) and v.ty >= 0 and self.T[v.ty].get("name") == t["name"]:
                fs = t["variants"][v.var]["fields"]
                return Agg(tty, v.var, tuple(self.transmute(st, x, None, fs[i][1]) for i, x in enumerate(v.fs)))
            if isinstance(v, Lin) and t["name"].endswith("Option") and "NonZero" in t["s"] and t["size"] == 8:
                if decide_eq(st.store, v):
                    return Agg(tty, 0, ())
                return Agg(tty, 1, (self.transmute(st, v, None, t["variants"][1]["fields"][0][1]),))
            if isinstance(v, (Ptr, Agg)) and t["name"].endswith("Option"):
                p = self.as_ptr(v)
                if isinstance(p, Ptr):
                    if p.is_addr() and st.store.eq(p.base, Lin(0)):
                        return Agg(tty, 0, ())
                    return Agg(tty, 1, (self.transmute(st, p, None, t["variants"][1]["fields"][0][1]),))
        if isinstance(v, Agg) and v.ty >= 0:
            vt = self.T[v.ty]
            # unwrap
            if vt["k"] == "adt" and vt["adt"] == "union":
                return self.transmute(st, v.fs[0], self.p.field_ty(v.ty, v.var), tty)
            if vt["k"] in ("adt", "tuple", "closure") and (vt["k"] != "adt" or vt["adt"] == "struct"):
                ft = [self.p.field_ty(v.ty, i) for i in range(len(v.fs))]
                nz = [i for i in range(len(ft)) if not self.p.is_zst(ft[i])]
                if len(nz) == 1:
                    return self.transmute(st, v.fs[nz[0]], ft[nz[0]], tty)
            if vt["k"] == "adt" and vt["adt"] == "enum":
                if k in ("uint", "int", "bool"):
                    d = vt["variants"][v.var]["discr"]
                    if not v.fs and d is not None:
                        return self.to_ty(Lin(int(d)), tty)
                if k in ("ptr", "other") and not v.fs and vt["variants"][v.var]["discr"] is not None and not vt["name"].endswith("Option"):
                    d = Lin(int(vt["variants"][v.var]["discr"]))
                    return d if k == "other" and "usize" in t["s"] else Ptr(d)
                if k in ("ptr", "ref", "other") or (k == "adt"):
                    if vt["name"].endswith("Option"):
                        if v.var == 0:
                            return Ptr(Lin(0))
                        return self.transmute(st, v.fs[0], None, tty)
        if k in ("ptr", "ref", "fnptr", "other"):
            if isinstance(v, Ptr) or isinstance(v, (Fnp, Tok)):
                return v
            if isinstance(v, Lin):
                if k == "other" and "usize" in t["s"]:
                    return v
                if k in ("ptr", "ref"):
                    return Ptr(v)
                return v
        if k in ("uint", "int"):
            if isinstance(v, Lin):
                return v
            if isinstance(v, bool):
                return Lin(1 if v else 0)
            if isinstance(v, Ptr):
                return self.address(st, v)
            if isinstance(v, Tok) and v.kind == "opaque":
                r = self.int_range(tty)
                return fresh("opq", r[0], r[1])
        if k == "bool":
            if isinstance(v, Lin):
                return decide_eq(st.store, v - 1)
            if isinstance(v, bool):
                return v
        if k == "array" and isinstance(v, Arr):
            return v
        if k == "array" and isinstance(v, Agg) and t["len"] == 1:
            return Arr(((Lin(0), Lin(1), self.transmute(st, v, None, t["elem"])),))
        if isinstance(v, Tok):
            return v
        raise Unsupported("transmute of %r to %s" % (v, t["s"]))

    def to_ty(self, l, ty):
        if self.T[ty]["k"] == "bool":
            return l.c == 1
        return l

    def address(self, st, p):
        if p.is_addr():
            return p.base
        a = sym(SYMS.get(("addr", p.base), "addr%d" % p.base, 256, 1 << 43)).scale(16)
        off = Lin(0)
        t = self.obj(st, p.base).ty
        for e in p.path:
            if e[0] == "x":
                et = self.T[t]["elem"] if t is not None else None
                off = off + e[1].scale(self.T[et]["size"] if et is not None else 1)
                t = et
            else:
                offs = self.T[t].get("offs")
                if offs and e[1] < len(offs):
                    off = off + offs[e[1]]
                t = self.p.field_ty(t, e[1], e[2])
        return a + off

    def wrap(self, st, e, ty):
        """value of the exact integer e in the type ty, with wrap around: (value, overflowed)"""
        lo, hi = self.int_range(ty)
        S = st.store
        if not decide_ge(S, Lin(hi) - e):
            e2 = e - (hi - lo + 1)
            if decide_ge(S, Lin(hi) - e2):
                return e2, True
            r = fresh("wrapped", lo, hi)
            return r, True
        if not decide_ge(S, e - lo):
            e2 = e + (hi - lo + 1)
            if decide_ge(S, e2 - lo):
                return e2, True
            r = fresh("wrapped", lo, hi)
            return r, True
        return e, False

    def mul(self, st, a, b):
        S = st.store
        a = S.res(a)
        b = S.res(b)
        if a.is_const():
            return b.scale(a.c)
        if b.is_const():
            return a.scale(b.c)
        return None

    def as_int(self, v):
        if isinstance(v, bool):
            return Lin(1 if v else 0)
        if isinstance(v, Lin):
            return v
        raise Unsupported("integer expected, found %r" % (v,))

    def binop(self, st, op, a, b, ty, checked=False):
        S = st.store
        if a is UN or b is UN:
            raise Bad(ALL, "use of an uninitialised value")
        if isinstance(a, Tok) and a.kind == "opaque" or isinstance(b, Tok) and b.kind == "opaque":
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                f = fresh("cond", 0, 1)
                return decide_eq(S, f)
        if op == "Offset":
            return self.ptr_offset(st, a, b, self.T[ty]["to"])
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            d = self.compare(st, op, a, b)
            return d
        if isinstance(a, bool) and isinstance(b, bool):
            r = {"BitAnd": a and b, "BitOr": a or b, "BitXor": a != b}.get(op)
            if r is None:
                raise Unsupported(op)
            return r
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported("arithmetic on pointers: " + op)
        a = S.res(self.as_int(a))
        b = S.res(self.as_int(b))
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        lo, hi = self.int_range(ty)
        if base in ("Add", "Sub", "Mul"):
            e = a + b if base == "Add" else a - b if base == "Sub" else self.mul(st, a, b)
            if e is None:
                # non linear: bounds only
                return (fresh("prod", lo, hi), decide_eq(S, fresh("ovf", 0, 1))) if checked else fresh("prod", lo, hi)
            v, o = self.wrap(st, e, ty)
            if "Unchecked" in op and o:
                raise Bad(ALL, "overflow of an unchecked operation (undefined behaviour)")
            return (v, o) if checked else v
        if base in ("Div", "Rem"):
            if b.is_const() and b.c > 0 and lo == 0:
                if a.is_const():
                    return Lin(a.c // b.c if base == "Div" else a.c % b.c)
                if S.ge0(a) and all(k % b.c == 0 for _, k in a.t):
                    if base == "Rem":
                        return Lin(a.c % b.c)
                    return Lin(a.c // b.c, tuple((s, k // b.c) for s, k in a.t))
                q = fresh("quot", 0, hi)
                r = a - q.scale(b.c)
                S.assume_ge0(r)
                S.assume_ge0(Lin(b.c - 1) - r)
                return q if base == "Div" else r
            if lo == 0:
                if base == "Div":
                    q = fresh("quot", 0, hi)
                    S.assume_ge0(a - q)
                    return q
                r = fresh("rem", 0, hi)
                S.assume_ge0(a - r)
                S.assume_ge0(b - r - 1)
                return r
            raise Unsupported("signed division")
        if base in ("Shl", "Shr"):
            if b.is_const() and 0 <= b.c < 128 and lo == 0:
                if base == "Shl":
                    v, o = self.wrap(st, a.scale(1 << b.c), ty)
                    return v
                return self.binop(st, "Div", a, Lin(1 << b.c), ty)
            return fresh("shift", lo, hi)
        if base in ("BitAnd", "BitOr", "BitXor"):
            if a.is_const() and b.is_const():
                return Lin(a.c & b.c if base == "BitAnd" else a.c | b.c if base == "BitOr" else a.c ^ b.c)
            if base == "BitAnd" and lo == 0:
                for x, m in ((a, b), (b, a)):
                    if m.is_const() and m.c >= 0 and (m.c & (m.c + 1)) == 0:
                        return self.binop(st, "Rem", x, Lin(m.c + 1), ty)
                r = fresh("and", lo, hi)
                S.assume_ge0(a - r)
                S.assume_ge0(b - r)
                return r
            if base == "BitOr" and lo == 0:
                r = fresh("or", lo, hi)
                S.assume_ge0(r - a)
                S.assume_ge0(r - b)
                return r
            return fresh("bits", lo, hi)
        raise Unsupported("operator " + op)

    def cmp_ptr(self, st, a, b):
        """difference in elements if both point into the same object, None if certainly different"""
        S = st.store
        if a.is_addr() and b.is_addr():
            return a.base - b.base
        if a.is_addr() != b.is_addr():
            return None
        if a.base != b.base:
            return None
        pa, pb = list(a.path), list(b.path)
        # ignore leading fields at offset zero
        def norm_tail(st, base, p):
            while p and p[-1][0] == "f":
                t = self.type_at(st, base, p[:-1])
                offs = self.T[t].get("offs")
                if self.T[t].get("adt") == "union" or (offs and p[-1][1] < len(offs) and offs[p[-1][1]] == 0 and self.T[t].get("adt") != "enum"):
                    p = p[:-1]
                else:
                    break
            return p
        pa = norm_tail(st, a.base, pa)
        pb = norm_tail(st, b.base, pb)
        if len(pa) != len(pb):
            while len(pa) > len(pb) and pa[-1][0] == "x" and S.eq(pa[-1][1], Lin(0)):
                pa = norm_tail(st, a.base, pa[:-1])
            while len(pb) > len(pa) and pb[-1][0] == "x" and S.eq(pb[-1][1], Lin(0)):
                pb = norm_tail(st, b.base, pb[:-1])
        if len(pa) == len(pb):
            d = Lin(0)
            for i, (x, y) in enumerate(zip(pa, pb)):
                if x == y:
                    continue
                if x[0] == "x" and y[0] == "x" and i == len(pa) - 1:
                    return x[1] - y[1]
                break
            else:
                return d
        return self.address(st, a) - self.address(st, b)

    def compare(self, st, op, a, b):
        S = st.store
        if isinstance(a, (Agg,)) and not isinstance(b, Lin):
            pa, pb = self.as_ptr(a), self.as_ptr(b)
            if isinstance(pa, Ptr):
                a, b = pa, pb
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            d = self.cmp_ptr(st, a, b)
            if d is not None and self.zst_mode and self.zst_here(st) and not a.is_addr() and a.base == b.base:
                t = self.type_at(st, a.base, a.path)
                if t is not None and self.T[t]["s"] in ("Elem", "probes::Elem"):
                    d = Lin(0)
            if d is None:
                if op in ("Eq", "Ne"):
                    return op == "Ne"
                d = self.address(st, a) - self.address(st, b)
            if isinstance(a.meta, Lin) and isinstance(b.meta, Lin) and op in ("Eq", "Ne"):
                r = decide_eq(S, d) and decide_eq(S, a.meta - b.meta)
                return r == (op == "Eq")
        elif isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported("comparison of a pointer with %r" % (b,))
        elif isinstance(a, bool) and isinstance(b, bool):
            d = Lin(int(a) - int(b))
        else:
            d = self.as_int(a) - self.as_int(b)
        if op == "Eq":
            return decide_eq(S, d)
        if op == "Ne":
            return not decide_eq(S, d)
        if op == "Lt":
            return decide_ge(S, -d - 1)
        if op == "Le":
            return decide_ge(S, -d)
        if op == "Gt":
            return decide_ge(S, d - 1)
        if op == "Ge":
            return decide_ge(S, d)
        # Cmp
        d = S.res(d)
        if S.ge0(-d - 1):
            return -1
        if S.ge0(d - 1):
            return 1
        if S.eq0(d):
            return 0
        raise split_cmp(d)

    def extent(self, st, base, path):
        """number of elements of the array which contains the element at path"""
        o = self.obj(st, base)
        v = self.read_path(st, o.val, o.ty, path[:-1])
        if isinstance(v, Arr):
            return v.segs[-1][1] if v.segs else Lin(0)
        return None

    def ptr_offset(self, st, p, n, P, checked=True):
        S = st.store
        p = self.as_ptr(p)
        n = self.as_int(n)
        size = self.T[P].get("size")
        if not isinstance(p, Ptr):
            raise Unsupported("offset of %r" % (p,))
        n = S.res(n)
        if size == 0:
            return p
        if n.is_const() and n.c == 0:
            return p
        if p.is_addr():
            if checked and not decide_eq(S, n):
                raise Bad(ALL, "pointer arithmetic on a dangling pointer")
            return Ptr(p.base + n.scale(size), (), p.meta)
        o = self.obj(st, p.base)
        if size == 1 and not (o.ty is None and o.es == 1):
            # byte offsets
            t = self.type_at(st, p.base, p.path)
            if t is not None:
                if p.path and p.path[-1][0] == "x":
                    es = self.T[t].get("size")
                    if es and es > 1 and n.c % es == 0 and all(k % es == 0 for _, k in n.t):
                        n = Lin(n.c // es, tuple((s, k // es) for s, k in n.t))
                        return self.ptr_offset(st, p, n, t, checked)
        path = self.retarget(st, p.base, p.path, P)
        if not path or path[-1][0] != "x":
            if decide_eq(S, n):
                return p
            if n.is_const() and n.c == 1:
                # one past a single value
                return Ptr(self.address(st, Ptr(p.base, path)) + size, (), p.meta)
            raise Unsupported("offset of a pointer which does not point into an array")
        i = S.res(path[-1][1] + n)
        if checked:
            ext = self.extent(st, p.base, path)
            if ext is not None:
                if not decide_ge(S, i) or not decide_ge(S, ext - i):
                    raise Bad(ALL, "pointer arithmetic leaves the allocation: index %r of %r elements" % (S.res(i), S.res(ext)))
        return Ptr(p.base, path[:-1] + (("x", i),), p.meta)

    # ------------------------------------------------------------------ rvalues
    def ordering(self, st, fr, place_ty, r):
        raise NotImplementedError

    def rvalue(self, st, fr, r, dty, moves):
        fn = self.p.fns[fr.fid]
        k = r[0]
        S = st.store
        if k == "use":
            return self.operand(st, fr, r[1], moves)
        if k in ("ref", "addr"):
            base, path, meta, ty = self.lval(st, fr, r[1])
            if isinstance(base, Lin):
                return Ptr(base, (), meta)
            return Ptr(base, path, meta)
        if k == "discr":
            base, path, meta, ty = self.lval(st, fr, r[1])
            v = self.read(st, base, path, ty)
            return self.discriminant(st, v, ty)
        if k == "len":
            base, path, meta, ty = self.lval(st, fr, r[1])
            return meta if self.T[ty]["k"] == "slice" else self.array_len(ty)
        if k == "agg":
            vs = [self.operand(st, fr, o, moves) for o in r[3]]
            kind = r[1]
            if kind == "tuple":
                return Agg(dty, 0, tuple(vs))
            if kind == "adt":
                if r[5] is not None:
                    return Agg(r[2], r[5], tuple(vs))
                return Agg(r[2], r[4], tuple(vs))
            if kind == "closure":
                return Agg(r[2], 0, tuple(vs))
            if kind == "array":
                return Arr(normalise(S, [(Lin(i), Lin(i + 1), v) for i, v in enumerate(vs)]))
            if kind == "rawptr":
                p = self.as_ptr(vs[0])
                m = vs[1] if isinstance(vs[1], Lin) else None
                return Ptr(p.base, p.path, m)
            raise Unsupported("aggregate " + kind)
        if k == "bin":
            a = self.operand(st, fr, r[2], moves)
            b = self.operand(st, fr, r[3], moves)
            v = self.binop(st, r[1], a, b, self.op_ty(fn, r[2]))
            if r[1] == "Cmp":
                return self.ordering_value(dty, v)
            return v
        if k == "cbin":
            a = self.operand(st, fr, r[2], moves)
            b = self.operand(st, fr, r[3], moves)
            v, o = self.binop(st, r[1], a, b, self.op_ty(fn, r[2]), True)
            return Agg(dty, 0, (v, o))
        if k == "un":
            a = self.operand(st, fr, r[2], moves)
            if r[1] == "Not":
                if isinstance(a, bool):
                    return not a
                lo, hi = self.int_range(dty)
                if lo == 0:
                    return Lin(hi) - self.as_int(a)
                return -self.as_int(a) - 1
            if r[1] == "Neg":
                v, o = self.wrap(st, -self.as_int(a), dty)
                return v
            if r[1] == "PtrMetadata":
                p = self.as_ptr(a)
                if isinstance(p, Ptr) and p.meta is not None:
                    return p.meta
                return self.zst(dty)
            raise Unsupported("unary " + r[1])
        if k == "cast":
            a = self.operand(st, fr, r[2], moves)
            return self.cast(st, r[1], a, self.op_ty(fn, r[2]), r[3])
        if k == "repeat":
            a = self.operand(st, fr, r[1], moves)
            n = self.N if r[2] == ARRAY_N else Lin(r[2])
            return Arr(normalise(S, [(Lin(0), n, a)]))
        raise Unsupported("rvalue " + k)

    def ordering_value(self, ty, d):
        t = self.T[ty]
        for i, v in enumerate(t["variants"]):
            x = int(v["discr"])
            if x > 127:
                x -= 1 << max(8, x.bit_length())
            if x == d or (d == -1 and x < 0):
                return Agg(ty, i, ())
        raise Unsupported("ordering")

    def discriminant(self, st, v, ty):
        if v is UN:
            t = self.T[ty] if ty is not None else {}
            if t.get("size") == 0 and t.get("adt") == "enum":
                vs = [x for x in t["variants"] if not x["fields"]]
                if len(vs) == 1:
                    return Lin(int(vs[0]["discr"] or 0))
            raise Bad(ALL, "discriminant of an uninitialised value")
        if isinstance(v, Agg):
            d = self.T[v.ty]["variants"][v.var]["discr"]
            d = int(d) if d is not None else v.var
            if self.T[v.ty]["name"].endswith("cmp::Ordering") and d > 127:
                d -= 1 << max(8, d.bit_length())
            return Lin(d)
        raise Unsupported("discriminant of %r" % (v,))

    def cast(self, st, kind, a, fty, tty):
        S = st.store
        if kind.startswith("IntToInt"):
            if isinstance(a, Agg):
                a = self.discriminant(st, a, fty)
            a = self.as_int(a) if not isinstance(a, Tok) else fresh("opq", *self.int_range(tty))
            lo, hi = self.int_range(tty)
            v, o = self.wrap(st, a, tty)
            return self.to_ty(v, tty)
        if kind.startswith("Transmute"):
            return self.transmute(st, a, fty, tty)
        if kind.startswith(("PtrToPtr", "FnPtrToPtr")):
            p = self.as_ptr(a)
            if isinstance(p, Ptr) and p.meta is not None:
                to = self.T[tty].get("to")
                if to is not None and not self.T[to].get("unsized"):
                    return Ptr(p.base, p.path, None)
            return p
        if kind.startswith("PointerCoercion(Unsize"):
            p = self.as_ptr(a)
            to = self.T[tty].get("to")
            if to is None:
                raise Unsupported("unsizing to " + self.T[tty]["s"])
            frm = self.T[fty].get("to")
            if self.T[to]["k"] == "slice" and frm is not None and self.T[frm]["k"] == "array":
                n = self.array_len(frm)
                if p.is_addr():
                    return Ptr(p.base, (), n)
                path = self.retarget(st, p.base, p.path, self.T[to]["elem"])
                return Ptr(p.base, path, n)
            return Ptr(p.base, p.path, Lin(0)) if isinstance(p, Ptr) else Tok("opaque")
        if kind.startswith("PointerCoercion"):
            if "Reify" in kind or "Closure" in kind:
                f = self.T[fty].get("fn")
                return Fnp(f) if f is not None else Tok("fnptr")
            return self.as_ptr(a)
        if kind.startswith("PointerExpose"):
            return self.address(st, self.as_ptr(a))
        if kind.startswith("PointerWithExposed"):
            return Ptr(self.as_int(a))
        raise Unsupported("cast " + kind)

    # ------------------------------------------------------------------ control
    def start(self, fid):
        st = State()
        st.frames = []
        st.objs = {}
        st.store = Store()
        st.g = {}
        st.unw = False
        st.trace = None
        st.loops = {}
        st.steps = 0
        self.push(st, fid, [], None, None, None)
        return st

    def push(self, st, fid, args, dest, target, unwind):
        fn = self.p.fns[fid]
        self.p.prepare(fn)
        self.visited_fns.add(fid)
        if len(st.frames) > 120:
            raise Unsupported("recursion too deep at " + fn.name)
        fr = Frame()
        fr.fid = fid
        fr.bb = 0
        fr.si = 0
        fr.locs = {}
        fr.dest = dest
        fr.target = target
        fr.unwind = unwind
        fr.uid = len(st.frames)
        st.frames.append(fr)
        for i, v in enumerate(args):
            o = new_id()
            fr.locs[i + 1] = o
            st.objs[o] = Obj(fn.locals[i + 1], v, "local")
        return fr

    def pop(self, st):
        fr = st.frames.pop()
        if st.loops:
            n = len(st.frames)
            for k in [k for k in st.loops if k[0] > n]:
                del st.loops[k]
        for o in fr.locs.values():
            st.objs.pop(o, None)
        return fr

    def where(self, st):
        out = []
        for fr in st.frames:
            fn = self.p.fns[fr.fid]
            b = fn.blocks[fr.bb]
            sp = b["s"][fr.si][1] if fr.si < len(b["s"]) else b["sp"]
            out.append((fn.short, self.p.span(sp), fn.crate))
        return out

    def goto(self, st, bb):
        fr = st.frames[-1]
        fr.bb = bb
        fr.si = 0

    def unwind_from(self, st, action):
        """continue unwinding at the call with the given action in the top frame"""
        st.unw = True
        while True:
            if action == "c" or action is None:
                fr = self.pop(st)
                if not st.frames:
                    return False
                action = fr.unwind
            elif action == "t":
                raise Bad(("C18",), "a panic escapes from a function which must not unwind (abort)")
            elif action == "u":
                raise Bad(("C18",), "unwinding through a point which is declared unreachable")
            else:
                self.goto(st, action)
                return True

    def run(self, fid, out):
        """analyses the probe; calls mon for events; `out` collects violations"""
        work = [self.start(fid)]
        self.mon.begin(self, work[0])
        heads = {}
        self.heads = heads
        while work:
            st = work.pop()
            while True:
                self.stats["steps"] += 1
                if self.stats["steps"] > self.limits["steps"]:
                    raise Unsupported("step limit exceeded")
                try:
                    r = self.step(st, heads)
                except Split as s:
                    self.stats["forks"] += 1
                    alive = []
                    for alt in s.alts:
                        n = st.copy()
                        ok = True
                        for kind, l, *rest in alt:
                            if kind == "new":
                                n.g[l] = fresh(*rest)
                            elif kind == "do":
                                l(n)
                            elif kind == "ge":
                                ok = n.store.assume_ge0(l)
                            else:
                                ok = n.store.assume_eq0(l)
                            if not ok:
                                break
                        if ok:
                            alive.append(n)
                    if len(alive) == len(s.alts) and len(alive) == 1 and s.alts[0][0][0] not in ("new", "do"):
                        raise Unsupported("no progress in a case split")
                    work.extend(reversed(alive))
                    break
                except Bad as b:
                    self.mon.violation(st, b.props, b.msg, fatal=True)
                    self.stats["paths"] += 1
                    break
                except Unsupported as u:
                    self.mon.violation(st, "ALL", "construct outside of the analysed fragment: %s" % u, fatal=True, unsupported=True)
                    self.stats["paths"] += 1
                    break
                if r is None:
                    continue
                if r is DONE:
                    self.stats["paths"] += 1
                    break
                # successors
                self.stats["forks"] += 1
                work.extend(reversed(r))
                break

    def step(self, st, heads):
        """executes one statement or terminator; None: continue with st, DONE: end of path, list: successors"""
        fr = st.frames[-1]
        fn = self.p.fns[fr.fid]
        if fr.si == 0 and fr.bb in fn.heads and not st.g.get("_athead"):
            r = J.arrive(self, st, heads)
            if r is DONE:
                return DONE
            if r is not None:
                return [r]
        if st.g.get("_athead"):
            st.g["_athead"] = False
        b = fn.blocks[fr.bb]
        ss = b["s"]
        try:
            while fr.si < len(ss):
                self.stmt(st, fr, fn, ss[fr.si][0])
                fr.si += 1
                self.stats["steps"] += 1
            return self.term(st, fr, fn, b["t"])
        except Split:
            # the head must not be entered again when the step is repeated
            if fr.si == 0 and fr.bb in fn.heads:
                st.g["_athead"] = True
            raise

    def assign(self, st, fr, place, v):
        base, path, meta, ty = self.lval(st, fr, place)
        if isinstance(base, Lin):
            if self.T[ty].get("size") == 0:
                return
            raise Bad(ALL, "write through a pointer without object")
        self.write(st, base, path, v)

    def stmt(self, st, fr, fn, s):
        k = s[0]
        if k == "=":
            moves = []
            dty = self.place_ty(fn, s[1])
            v = self.rvalue(st, fr, s[2], dty, moves)
            # evaluate the destination before the source is invalidated
            base, path, meta, ty = self.lval(st, fr, s[1])
            if isinstance(base, Lin):
                if self.T[ty].get("size") == 0:
                    return
                raise Bad(ALL, "write through a pointer without object")
            self.write(st, base, path, v)
            ms = [m for m in moves if m != (base, path)]
            if ms:
                self.do_moves(st, ms)
        elif k == "live":
            o = fr.locs.pop(s[1], None)
            if o is not None:
                st.objs.pop(o, None)
        elif k == "dead":
            o = fr.locs.pop(s[1], None)
            if o is not None:
                st.objs.pop(o, None)
        elif k == "setd":
            base, path, meta, ty = self.lval(st, fr, s[1])
            v = self.read(st, base, path)
            if isinstance(v, Agg) and v.var == s[2]:
                return
            n = self.p.nfields(ty, s[2])
            self.write(st, base, path, Agg(ty, s[2], tuple([UN] * n)))
        elif k == "assume":
            v = self.operand(st, fr, s[1])
            if v is False:
                raise Bad(ALL, "violated assumption (undefined behaviour)")
        elif k == "copynon":
            a = self.operand(st, fr, s[1])
            b = self.operand(st, fr, s[2])
            n = self.operand(st, fr, s[3])
            to = self.T[self.op_ty(fn, s[1])]["to"]
            self.copy_mem(st, a, b, n, to)
        else:
            raise Unsupported("statement " + k)

    def copy_mem(self, st, src, dst, n, elem, overlap_ok=False):
        S = st.store
        n = S.res(self.as_int(n))
        src = self.as_ptr(src)
        dst = self.as_ptr(dst)
        if self.T[elem].get("size") == 0:
            return
        if not decide_ge(S, n - 1):
            return
        if src.is_addr() or dst.is_addr():
            raise Bad(ALL, "copy from or to memory without object")
        sp = self.retarget(st, src.base, src.path, elem)
        dp = self.retarget(st, dst.base, dst.path, elem)
        if self.mon.on_read:
            self.mon.on_read(st, src.base, sp, elem)
        one = n.is_const() and n.c == 1
        if (not sp or sp[-1][0] != "x" or not dp or dp[-1][0] != "x") and one:
            v = self.read(st, src.base, sp)
            self.write(st, dst.base, dp, v)
            return
        if not sp or sp[-1][0] != "x" or not dp or dp[-1][0] != "x":
            if not sp or sp[-1][0] != "x":
                if decide_ge(S, n - 2):
                    raise Unsupported("copy of several values from a single object")
                v = self.read(st, src.base, sp)
                self.write(st, dst.base, dp, v)
                return
            raise Unsupported("copy of several values to a single object")
        i = S.res(sp[-1][1])
        j = S.res(dp[-1][1])
        so = self.obj(st, src.base)
        sa = self.read_path(st, so.val, so.ty, sp[:-1])
        do = self.obj(st, dst.base)
        da = self.read_path(st, do.val, do.ty, dp[:-1])
        if not isinstance(sa, Arr) or not isinstance(da, Arr):
            raise Unsupported("copy of non-arrays")
        pieces = arr_cut(S, sa.segs, i, i + n)
        if one and pieces and pieces[0][2] == OPT:
            self.inspect(st, src.base, sp)
        sh = i - j
        out = []
        for a, b, t in pieces:
            out.append((a - sh, b - sh, map_lin(t, lambda l: l.subst({IDX: IDXL + sh}))))
        new = arr_put(S, da, j, out)
        if self.mon.on_write:
            self.mon.on_write(st, dst.base, dp, None)
        st.objs[dst.base] = Obj(do.ty, self.write_path(st, do.val, do.ty, dp[:-1], new), do.kind, do.es)

    def term(self, st, fr, fn, t):
        k = t[0]
        if k == "goto":
            self.goto(st, t[1])
            return None
        if k == "switch":
            v = self.operand(st, fr, t[1])
            if v is UN:
                raise Bad(ALL, "branch on an uninitialised value")
            if isinstance(v, Tok):
                v = fresh("opq", 0, U64)
            v = self.as_int(v)
            S = st.store
            v = S.res(v)
            rng = self.int_range(t[4]) if t[4] is not None else None
            for val, bb in t[2]:
                c = int(val)
                if rng and rng[0] < 0 and c > rng[1]:
                    c -= (rng[1] - rng[0] + 1)
                if decide_eq(S, v - c):
                    self.goto(st, bb)
                    return None
            self.goto(st, t[3])
            return None
        if k == "ret":
            return self.ret(st, fr, fn)
        if k == "call":
            return self.call(st, fr, fn, t)
        if k == "drop":
            return self.drop(st, fr, fn, t)
        if k == "assert":
            v = self.operand(st, fr, t[1])
            if v == t[2]:
                self.goto(st, t[4])
                return None
            return self.panic(st, t[3], t[5])
        if k == "resume":
            if self.unwind_from(st, "c"):
                return None
            return self.mon.unwound(st) or DONE
        if k == "unreachable":
            raise Bad(ALL, "unreachable code is reached (undefined behaviour)")
        if k == "abort":
            raise Bad(ALL, "abort")
        raise Unsupported("terminator " + k)

    def panic(self, st, msg, action):
        r = self.mon.panic(st, msg)
        if r is DONE:
            return DONE
        if self.unwind_from(st, action):
            return None
        return self.mon.unwound(st) or DONE

    def ret(self, st, fr, fn):
        o = fr.locs.get(0)
        v = st.objs[o].val if o is not None else self.zst(fn.locals[0])
        if v is UN and self.T[fn.locals[0]].get("size") == 0:
            v = self.zst(fn.locals[0])
        if len(st.frames) == 1:
            self.pop(st)
            self.mon.finished(st)
            return DONE
        dest = fr.dest
        target = fr.target
        if target is None:
            raise Unsupported("return from a diverging call")
        if dest is not None and not isinstance(dest[0], Lin):
            self.write(st, dest[0], dest[1], v)
        self.pop(st)
        self.goto(st, target)
        return None

    # ------------------------------------------------------------------ calls
    def call(self, st, fr, fn, t):
        callee = t[1]
        moves = []
        args = [self.operand(st, fr, o, moves) for o in t[2]]
        if isinstance(callee, dict):
            if "dyn" in callee:
                f = self.operand(st, fr, callee["dyn"])
                if isinstance(f, Fnp):
                    callee = f.fid
                else:
                    raise Unsupported("call of an unknown function pointer")
            else:
                raise Unsupported("call of an unresolved function " + str(callee))
        cf = self.p.fns[callee]
        self.stats["calls"] += 1
        self.visited_sites.add((fr.fid, fr.bb))
        prim = self.find_prim(cf)
        base, path, meta, dty = self.lval(st, fr, t[3])
        if prim is None and not cf.has_body:
            if cf.diverges:
                self.do_moves(st, moves)
                return self.panic(st, cf.path, t[5])
            if self.T_is_empty_shim(cf):
                prim = lambda I, st, c: I.unit()
            elif self.constructor(cf, dty) is not None:
                var = self.constructor(cf, dty)

                def prim(I, st, c):
                    vs = c.args
                    if len(vs) == 1 and isinstance(vs[0], Agg) and vs[0].ty >= 0 and I.T[vs[0].ty]["k"] == "tuple" and len(I.T[dty]["variants"][var]["fields"]) == len(vs[0].fs):
                        ft = I.T[dty]["variants"][var]["fields"][0][1]
                        if ft != vs[0].ty:
                            vs = vs[0].fs
                    return Agg(c.dty, var, tuple(vs))
            else:
                raise Unsupported("function without body: " + cf.name)
        if prim is not None:
            snap = st.copy()
            c = Call()
            c.fn = cf
            c.args = args
            c.argtys = [self.op_ty(fn, o) for o in t[2]]
            c.dty = dty
            c.unwind = t[5]
            c.target = t[4]
            c.caller = fn
            try:
                self.do_moves(st, moves)
                return self.prim_result(st, prim(self, st, c), (base, path), t[4], t[5], cf)
            except Split:
                self.restore(st, snap)
                raise
        self.do_moves(st, moves)
        self.enter(st, callee, args, (base, path), t[4], t[5])
        return None

    def prim_result(self, st, r, dest, target, unwind, cf):
        """continues after a primitive"""
        if r is DONE:
            return DONE
        if isinstance(r, Tail):
            self.enter(st, r.fid, r.args, dest, target, unwind)
            return None
        outs = r.outs if isinstance(r, Outcomes) else [(st, r)]
        res = []
        for s2, v in outs:
            if v is UNWIND:
                if self.unwind_from(s2, unwind):
                    res.append(s2)
                else:
                    self.mon.unwound(s2)
                continue
            if target is None:
                raise Unsupported("return from diverging " + cf.name)
            if dest is not None and not isinstance(dest[0], Lin):
                self.write(s2, dest[0], dest[1], v)
            self.goto(s2, target)
            res.append(s2)
        if not isinstance(r, Outcomes) and len(res) == 1:
            return None
        return res if res else DONE

    def constructor(self, cf, ty):
        """the variant which is built by a constructor used as a function"""
        t = self.T[ty]
        if cf.kind != "item" or t["k"] != "adt" or t["adt"] not in ("enum", "struct"):
            return None
        last = re.sub(r"<.*>", "", cf.name).rsplit("::", 1)[-1]
        if t["adt"] == "struct":
            return 0 if re.sub(r"<.*>", "", t["name"]).rsplit("::", 1)[-1] == last else None
        for i, v in enumerate(t["variants"]):
            if v.get("name") == last:
                return i
        return None

    def T_is_empty_shim(self, cf):
        return cf.path.endswith("drop_glue") and cf.args and isinstance(cf.args[0], int) and "drop" not in self.T[cf.args[0]]

    def enter(self, st, fid, args, dest, target, unwind):
        cf = self.p.fns[fid]
        n = cf.argc
        if cf.is_closure and len(args) == 2 and isinstance(args[1], Agg) and cf.spread is None:
            # rust-call ABI
            args = [args[0]] + list(args[1].fs)
        if len(args) != n:
            if cf.spread is not None and len(args) >= cf.spread:
                rest = args[cf.spread - 1:]
                args = args[:cf.spread - 1] + [Agg(cf.locals[cf.spread], 0, tuple(rest))]
            elif n > len(args) and args and isinstance(args[-1], Agg):
                args = args[:-1] + list(args[-1].fs)
        if len(args) != n:
            raise Unsupported("arguments of " + cf.name)
        self.push(st, fid, args, dest, target, unwind)

    def restore(self, st, snap):
        st.frames = snap.frames
        st.objs = snap.objs
        st.store = snap.store
        st.g = snap.g
        st.unw = snap.unw
        st.trace = snap.trace
        st.loops = snap.loops

    def find_prim(self, cf):
        r = self.primcache.get(cf.id, 0)
        if r == 0:
            r = self.prims.find(self, cf)
            self.primcache[cf.id] = r
        return r

    def drop(self, st, fr, fn, t):
        _, place, target, unwind, ty = t
        base, path, meta, _ = self.lval(st, fr, place)
        df = self.T[ty].get("drop")
        if df is None:
            self.goto(st, target)
            return None
        if isinstance(base, Lin):
            if meta is not None and st.store.eq(meta, Lin(0)):
                self.goto(st, target)
                return None
            raise Bad(ALL, "drop of a value without object")
        ptr = Ptr(base, path, meta)
        cf = self.p.fns[df]
        prim = self.find_prim(cf)
        if prim is not None:
            snap = st.copy()
            c = Call()
            c.fn = cf
            c.args = [ptr]
            c.argtys = [None]
            c.dty = None
            c.unwind = unwind
            c.target = target
            c.caller = fn
            try:
                return self.prim_result(st, prim(self, st, c), None, target, unwind, cf)
            except Split:
                self.restore(st, snap)
                raise
        if not cf.has_body:
            raise Unsupported("drop glue without body: " + cf.name)
        self.enter(st, df, [ptr], None, target, unwind)
        return None


class Inspect(Exception):
    def __init__(self, path):
        self.path = path


class Call:
    __slots__ = ("fn", "args", "argtys", "dty", "unwind", "target", "caller")


class Tail:
    """the primitive is replaced by a call of another function"""

    def __init__(self, fid, args):
        self.fid = fid
        self.args = args
