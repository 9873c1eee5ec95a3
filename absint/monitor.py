"""Specification automata: sees the abstract events of a probe and checks the obligations of the properties."""
from lin import *
from values import *
from memory import *
from interp import Outcomes, UNWIND, DONE, Obj, new_id, fresh
import join as J

IMAX = (1 << 63) - 1
ACQ = ("Acquire", "AcqRel", "SeqCst")
REL = ("Release", "AcqRel", "SeqCst")

KNOWN = ("vec", "array", "slice", "range")
PULLS = ("C01", "C04")


class Report:
    def __init__(self, props, msg, fn, path, probe, unsupported):
        self.props = props
        self.msg = msg
        self.fn = fn
        self.path = path
        self.probe = probe
        self.unsupported = unsupported


class Monitor:
    """one instance per probe run"""

    def __init__(self, probe, panics=False):
        self.probe = probe
        self.panics = panics
        self.reports = {}
        self.checks = {}  # property -> number of discharged obligations
        self.sites = set()
        self.finished_paths = 0
        self.unwound_paths = 0
        self.panic_msgs = set()
        self.events = {}
        self.on_read = None
        self.I = None
        self.plist = []

    # ------------------------------------------------------------------ plumbing
    def begin(self, I, st):
        self.I = I
        g = st.g
        g["mode"] = "plain"
        g["op"] = None
        g["kind"] = None
        g["D"] = Lin(0)
        g["C"] = Lin(0)
        g["_sh"] = frozenset()
        g["_cells"] = ()
        g["end"] = False
        g["comp"] = False
        g["must"] = False
        g["thrown"] = False
        g["adapt"] = None
        g["indep"] = None
        g["chunky"] = False
        g["sd"] = False

    def params(self):
        return self.plist

    def param(self, name, lo, hi):
        s = SYMS.get(("param", name), name, lo, hi)
        if s not in self.plist:
            self.plist.append(s)
        return sym(s)

    def violation(self, st, props, msg, fatal=False, unsupported=False):
        if props == ALL:
            props = ("ALL",) if unsupported else self.undefined(st)
        path = self.I.where(st) if st.frames else []
        fn = "?"
        for f, sp, cr in reversed(path):
            if cr == "orx_concurrent_iter":
                fn = f
                break
        key = (msg.split(":")[0], fn, tuple(props))
        if key not in self.reports:
            self.reports[key] = Report(tuple(props), msg, fn, path, self.probe, unsupported)

    def bad(self, st, props, msg):
        self.violation(st, self.ctx(st, props), msg)

    def ctx(self, st, props):
        """adds the properties which contain the violated one in the present context"""
        p = set(props)
        g = st.g
        if g["adapt"] and p & {"C01", "C02", "C03", "C04", "C05", "C06", "C11", "C10"}:
            p.add("C13")
        if g["op"] == "loop" and p & {"C01", "C02", "C04"}:
            p.add("C12")
        if g["op"] == "pull" and g["chunky"] and p & {"C01", "C02"}:
            p.add("C03")
        if g["op"] == "skip" and p & {"C01", "C02", "C04", "C05"}:
            p.add("C06")
        if g["op"] == "seq" and p & {"C01", "C02", "C04", "C08"}:
            p.add("C10")
        if g["op"] == "raw" and p & {"C01", "C07", "C08", "C19"}:
            p.add("C14")
        if g["indep"] and p & {"C01", "C02", "C04", "C05", "C06", "C11"}:
            p.add("C19")
        if self.panics and g["thrown"]:
            p.add("C18")
        return tuple(sorted(p))

    def ok(self, st, props, cond, msg):
        """obligation: cond must hold"""
        ps = self.ctx(st, props)
        if cond:
            for p in ps:
                self.checks[p] = self.checks.get(p, 0) + 1
            return True
        self.violation(st, ps, msg)
        return False

    def ev(self, name):
        self.events[name] = self.events.get(name, 0) + 1

    def unit(self):
        return self.I.unit()

    def need(self, st, key, name, lo, hi):
        """a fresh symbol which survives the repetition of the present step"""
        v = st.g.get(key)
        if v is None:
            raise Split([[("new", key, name, lo, hi)]])
        return v

    def done_with(self, st, *keys):
        for k in keys:
            st.g.pop(k, None)

    def consuming(self, st):
        return st.g["kind"] in ("vec", "array", "iter")

    def owes(self, st):
        """every reserved element must be delivered or dropped"""
        return self.consuming(st) and st.g["form"] != "pod"

    def is_iter(self, st):
        return st.g["kind"] in ("iter", "iterref")

    # ------------------------------------------------------------------ panics and ends of paths
    def everything(self, st):
        """the properties which a panic or undefined behaviour breaks in the present context"""
        g = st.g
        p = {"C16", "C17"}
        p |= {"loop": {"C12"}, "skip": {"C06"}, "query": {"C11"}, "pull": {"C01"}, "seq": {"C10"}, "drop": {"C08", "C15"}}.get(g["op"], set())
        if g["op"] == "pull" and g["chunky"]:
            p.add("C03")
        if g["indep"]:
            p.add("C19")
        if g["adapt"]:
            p.add("C13")
        return p

    def undefined(self, st):
        p = self.everything(st)
        if self.consuming(st):
            p.add("C08")
        if self.panics and st.g["thrown"]:
            p.add("C18")
        if st.g["op"] == "raw":
            p.add("C14")
        return tuple(sorted(p))

    def panic(self, st, msg):
        st.g["thrown"] = True
        if st.g["must"]:
            self.panic_msgs.add(msg)
            return None
        self.panic_msgs.add(msg)
        p = self.everything(st)
        self.violation(st, tuple(sorted(p)), "panic: %s" % msg)
        return DONE

    def unwound(self, st):
        """the probe is left by unwinding"""
        self.unwound_paths += 1
        g = st.g
        if g["must"]:
            self.ev("promised_panic")
            S = st.store
            if g["f"] is not None and not self.is_iter(st):
                self.ok(st, ("C16", "C01"), S.eq(g["f"], g["bk"]), "positions are reserved and lost before the documented panic")
            if not self.panics:
                return DONE
        if g["mode"] == "shared":
            self.end_of_op(st, "C18")
            self.released(st, "C18")
        elif g["mode"] == "excl":
            self.gone(st, "C18")
        return DONE

    def finished(self, st):
        self.finished_paths += 1

    def end_of_op(self, st, *extra):
        """obligations of an operation which is left, by return or unwinding"""
        g = st.g
        S = st.store
        if self.is_iter(st) and g.get("t") is not None:
            if g["hold"]:
                self.ok(st, ("C09",) + extra, g["comp"],
                        "the turn to advance the wrapped iterator is neither passed on nor is the iteration marked as completed: other threads wait forever")
            elif not g["served"]:
                self.ok(st, ("C09", "C01") + extra, g["comp"],
                        "a reserved ticket is abandoned before it is served while the iteration is not completed: other threads wait forever")
        if g.get("f") is not None and self.owes(st):
            av = self.avail(st)
            if not S.eq(g["f"], av):
                self.to_debt(st, g["f"], av)

    def avail(self, st):
        g = st.g
        if self.is_iter(st):
            # nothing is obtained without the turn
            return g["k"] if g.get("k") is not None else g["f"]
        return g["bk"]

    def to_debt(self, st, lo, hi):
        """elements which were reserved and obtained but neither delivered nor dropped: they must still be owned by local memory"""
        g = st.g
        S = st.store
        n = hi - lo
        if g["kind"] != "iter":
            # positions of the source are only moved on delivery
            self.ok(st, ("C08", "C15"), False, "reserved elements are neither delivered nor dropped")
            return
        g["D"] = S.res(g["D"] + n)
        sh = g["_sh"]
        for o, ob in list(st.objs.items()):
            if o in sh or ob.kind in ("src", "freed", "const"):
                continue
            v = retag(ob.val)
            if v is not ob.val:
                st.objs[o] = Obj(ob.ty, v, ob.kind, ob.es)

    # ------------------------------------------------------------------ sources
    def setup(self, st, kind, L, form):
        g = st.g
        g["kind"] = kind
        g["L"] = L
        g["form"] = form

    def vec_value(self, st, ty, ptr, ln, cap):
        I = self.I

        def build(t):
            T = I.T[t]
            fs = []
            for n, ft in T["variants"][0]["fields"]:
                if n == "len":
                    fs.append(ln)
                elif n == "cap":
                    fs.append(I.transmute(st, cap, None, ft))
                elif n == "ptr":
                    fs.append(I.transmute(st, ptr, None, ft))
                elif n in ("buf", "inner"):
                    fs.append(build(ft))
                elif I.T[ft].get("size") == 0:
                    fs.append(I.zst(ft))
                else:
                    raise Unsupported("layout of Vec: field " + n)
            return Agg(t, 0, tuple(fs))
        return build(ty)

    def ev_src_vec(self, st, c):
        I = self.I
        el = I.T[c.dty]["args"][0]
        return self.mk_vec(st, c.dty, el, "vec", "src", "src")

    def ev_src_pod_vec(self, st, c):
        I = self.I
        el = I.T[c.dty]["args"][0]
        return self.mk_vec(st, c.dty, el, "vec", "pod", "pod")

    def mk_vec(self, st, vty, el, kind, tok, form):
        I = self.I
        s2 = st.copy()
        # empty without buffer
        self.setup(s2, kind, Lin(0), form)
        v2 = self.vec_value(s2, vty, Ptr(Lin(8)), Lin(0), Lin(0))
        L = self.param("len", 0, IMAX // 8)
        cap = self.param("cap", 1, IMAX // 8)
        S = st.store
        if not S.assume_ge0(cap - L):
            raise Unsupported("vec")
        o = new_id()
        st.objs[o] = Obj(I.p.slice_ty(el), Arr(normalise(S, [(Lin(0), L, Tok(tok, IDXL)), (L, cap, UN)])), "heap", I.T[el]["size"])
        self.setup(st, kind, L, form)
        v1 = self.vec_value(st, vty, Ptr(o, (("x", Lin(0)),)), L, cap)
        st.g["_srcobj"] = o
        return Outcomes([(st, v1), (s2, v2)])

    def ev_src_vec_ref(self, st, c):
        I = self.I
        vty = I.T[c.dty]["to"]
        el = I.T[vty]["args"][0]
        r = self.mk_vec(st, vty, el, "slice", "src", "ref")
        outs = []
        for s, v in r.outs:
            o = new_id()
            s.objs[o] = Obj(vty, v, "src")
            h = s.g.get("_srcobj")
            if h is not None:
                ob = s.objs[h]
                s.objs[h] = Obj(ob.ty, ob.val, "src", ob.es)
            s.g["_sh"] = s.g["_sh"] | {o} | ({h} if h is not None else set())
            outs.append((s, Ptr(o)))
        return Outcomes(outs)

    def ev_src_array(self, st, c):
        return self.mk_array(st, c.dty)

    ev_src_array0 = ev_src_array
    ev_src_array1 = ev_src_array

    def mk_array(self, st, ty, tok="src"):
        I = self.I
        n = I.array_len(ty)
        if not n.is_const() and n.t[0][0] not in self.plist:
            self.plist.append(n.t[0][0])
        self.setup(st, "array", n, tok)
        return Arr(normalise(st.store, [(Lin(0), n, Tok(tok, IDXL))]))

    def ev_src_array_ref(self, st, c):
        I = self.I
        ty = I.T[c.dty]["to"]
        v = self.mk_array(st, ty)
        self.setup(st, "slice", st.g["L"], "ref")
        o = new_id()
        st.objs[o] = Obj(ty, v, "src")
        st.g["_srcobj"] = o
        st.g["_sh"] = st.g["_sh"] | {o}
        return Ptr(o)

    def ev_src_pod_array(self, st, c):
        return self.mk_array(st, c.dty, "pod")

    def ev_src_slice(self, st, c):
        return self.mk_slice(st, c, "src")

    def ev_src_pod_slice(self, st, c):
        return self.mk_slice(st, c, "pod")

    def mk_slice(self, st, c, tok):
        I = self.I
        sl = I.T[c.dty]["to"]
        L = self.param("len", 0, IMAX // 8)
        o = new_id()
        st.objs[o] = Obj(sl, Arr(((Lin(0), L, Tok(tok, IDXL)),)), "src")
        st.g["_srcobj"] = o
        st.g["_sh"] = st.g["_sh"] | {o}
        self.setup(st, "slice", L, "ref")
        return Ptr(o, (("x", Lin(0)),), L)

    def ev_src_range(self, st, c):
        a = self.param("start", 0, U64)
        b = self.param("end", 0, U64)
        s2 = st.copy()
        self.setup(st, "range", b - a, "range")
        self.setup(s2, "range", Lin(0), "range")
        for i, s in enumerate((st, s2)):
            s.g["a"] = a
            s.g["variant"] = "regular" if i == 0 else "inverted"
        st.store.assume_ge0(b - a)
        s2.store.assume_ge0(a - b - 1)
        v = Agg(c.dty, 0, (a, b))
        return Outcomes([(st, v), (s2, v)])

    def ev_src_iter(self, st, c):
        L = self.param("len", 0, 1 << 63)
        self.setup(st, "iter", L, "src")
        return Agg(c.dty, 0, (Tok("Src"),))

    def ev_src_iter_ref(self, st, c):
        I = self.I
        L = self.param("len", 0, 1 << 63)
        self.setup(st, "iterref", L, "ref")
        return Agg(c.dty, 0, (Tok("Src"),))

    ev_src_pod_iter_ref = ev_src_iter_ref

    # ------------------------------------------------------------------ choices
    def ev_any_usize(self, st, c):
        self.nctr = getattr(self, "nctr", 0)
        return self.param("n", 0, U64)

    def ev_any_positive(self, st, c):
        return self.param("n+", 1, U64)

    def ev_choice(self, st, c):
        s2 = st.copy()
        return Outcomes([(st, True), (s2, False)])

    # ------------------------------------------------------------------ sharing
    def atomics_in(self, ty, path=(), depth=0):
        I = self.I
        t = I.T[ty]
        if t["k"] == "adt" and t["name"].endswith("sync::atomic::Atomic"):
            return [(path, I.T[t["args"][0]]["s"])]
        out = []
        if depth > 12:
            return out
        if t["k"] in ("tuple", "closure") or (t["k"] == "adt" and t["adt"] == "struct" and t["variants"]):
            for i in range(I.p.nfields(ty)):
                out += self.atomics_in(I.p.field_ty(ty, i), path + (("f", i, -1),), depth + 1)
        return out

    def reach(self, st, roots):
        seen = set()
        todo = list(roots)

        def visit(v):
            if isinstance(v, Agg) or isinstance(v, tuple):
                for x in (v.fs if isinstance(v, Agg) else v):
                    visit(x)
            elif isinstance(v, Ptr):
                if not v.is_addr() and v.base not in seen:
                    todo.append(v.base)
            elif isinstance(v, Arr):
                for a, b, t in v.segs:
                    visit(t)
        while todo:
            o = todo.pop()
            if o in seen or o not in st.objs:
                continue
            seen.add(o)
            visit(st.objs[o].val)
        return seen

    def register(self, st, c):
        """atomic cells of the iterator: args are &it and &counter"""
        I = self.I
        it = I.as_ptr(c.args[0])
        ctr = I.as_ptr(c.args[1])
        if it.is_addr() or ctr.is_addr() or ctr.base != it.base and ctr.base not in self.reach(st, [it.base]):
            raise Unsupported("the counter is not a part of the iterator")
        cells = []
        usz, bools = [], []
        for o in self.reach(st, [it.base]):
            ob = st.objs[o]
            if ob.ty is None:
                continue
            for path, s in self.atomics_in(ob.ty):
                if o == ctr.base and path[:len(ctr.path)] == ctr.path:
                    cells.append((o, path, "pos"))
                elif s not in ("usize", "isize"):
                    bools.append((o, path))
                else:
                    usz.append((o, path))
        if sum(1 for x in cells if x[2] == "pos") != 1:
            raise Unsupported("the position cell is not unique")
        if self.is_iter(st):
            if len(bools) != 1 or len(usz) != 1:
                raise Unsupported("roles of the atomic cells of the wrapper of iterators")
            cells.append(bools[0] + ("comp",))
            cells.append(usz[0] + ("y",))
        else:
            for x in bools + usz:
                cells.append(x + ("other",))
        return it, cells

    def ev_share(self, st, c):
        self.ev("share")
        g = st.g
        it, cells = self.register(st, c)
        I = self.I
        # initial values
        for o, path, role in cells:
            v = I.as_ptr(I.read(st, o, path))
            if role in ("pos", "y"):
                self.ok(st, ("C01", "C02", "C04"), isinstance(v, Lin) and st.store.eq(v, Lin(0)), "a new iterator does not start at position zero")
            elif role == "comp":
                self.ok(st, ("C01", "C05"), (isinstance(v, Lin) and st.store.eq(v, Lin(0))) or v is False, "a new iterator is already completed")
        g["_cells"] = tuple(cells)
        g["_sh"] = g["_sh"] | frozenset(self.reach(st, [it.base]))
        g["mode"] = "shared"
        T = I.T[I.T[c.argtys[0]]["to"]]
        if T["k"] == "adt" and T["name"].endswith("::Cloned"):
            g["adapt"] = "cloned"
            g["form"] = "clone"
        elif T["k"] == "adt" and T["name"].endswith("::Copied"):
            g["adapt"] = "copied"
            g["form"] = "pod"
        g["plb"] = Lin(0)
        g["op"] = "loop" if False else None
        self.clear_op(st)
        return self.unit()

    def clear_op(self, st):
        g = st.g
        g["chunky"] = False
        for k in ("b", "f", "bk", "n", "t", "m", "k", "last", "cobs", "chunk", "got", "fold", "sat", "nb", "nk"):
            g[k] = None
        g["hold"] = False
        g["served"] = False
        g["ended"] = False
        g["ym"] = False
        g["ymr"] = False
        g["phase"] = None
        g["obs"] = False

    def role(self, st, p):
        for o, path, role in st.g["_cells"]:
            if o == p.base and p.path[:len(path)] == path:
                return role
        return None

    # ------------------------------------------------------------------ memory accesses
    def on_write(self, st, base, path, v):
        g = st.g
        sh = g["_sh"]
        if base not in sh:
            return
        if g["mode"] == "shared":
            if self.role_of_path(st, base, path):
                return
            ob = st.objs.get(base)
            # a write to an element position inside the own reservation is exclusive
            if ob is not None and path and g.get("f") is not None and self.consuming(st):
                xs = [e for e in path if e[0] == "x"]
                if xs and v is not None:
                    S = st.store
                    if S.ge0(xs[-1][1] - g["f"]) and S.ge0(g["bk"] - xs[-1][1] - 1):
                        return
            ps = ["C07"]
            if ob is not None and ob.kind == "src":
                ps += ["C13", "C19"]
            self.bad(st, ps, "plain write to memory which is shared between threads (data race)")
        else:
            ob = st.objs.get(base)
            if ob is not None and ob.kind == "src":
                self.bad(st, ("C19", "C13"), "the borrowed source collection is modified")

    def role_of_path(self, st, base, path):
        for o, p, role in st.g["_cells"]:
            if o == base and path[:len(p)] == p:
                return role
        return None

    def free(self, st, o):
        if o in st.g["_sh"] and st.g["mode"] == "shared":
            self.bad(st, ("C07", "C08", "C19"), "memory which is shared between threads is released")

    # ------------------------------------------------------------------ atomics
    def cell_value(self, st, p, ty):
        return self.I.as_int(self.I.read(st, p.base, p.path))

    def as_cell(self, v, ty):
        return v

    def atomic_load(self, st, c, p, ty, order):
        g = st.g
        role = self.role(st, p) if g["mode"] == "shared" else None
        if role is None:
            return self.I.read(st, p.base, p.path, ty)
        S = st.store
        if role == "pos":
            v = self.need(st, "_v", "pos", 0, U64)
            self.observe_pos(st, v)
            self.done_with(st, "_v")
            if order == "Relaxed" and g["op"] is None:
                pass
            return v
        if role == "comp":
            return self.load_comp(st, order)
        if role == "y":
            return self.load_y(st, order)
        lo, hi = self.I.int_range(ty)
        v = self.need(st, "_v", "cell", lo, hi)
        self.done_with(st, "_v")
        return v

    def atomic_store(self, st, c, p, ty, v, order):
        g = st.g
        role = self.role(st, p) if g["mode"] == "shared" else None
        if role is None:
            self.I.write(st, p.base, p.path, v)
            return self.unit()
        if role == "pos":
            self.store_pos(st, v)
        elif role == "comp":
            self.store_comp(st, v)
        elif role == "y":
            self.release(st, None, v, order)
        elif role == "foreign":
            self.foreign(st)
        return self.unit()

    def foreign(self, st):
        self.bad(st, ("C19", "C01"), "the position of another iterator is changed")
        raise Bad(("C19",), "the position of another iterator is changed")

    def atomic_rmw(self, st, c, p, ty, opfn, arg, order):
        g = st.g
        role = self.role(st, p) if g["mode"] == "shared" else None
        if role is None:
            old = self.I.read(st, p.base, p.path, ty)
            new = opfn(self.I, st, ty, old, arg)
            self.I.write(st, p.base, p.path, new)
            return old
        if role == "pos":
            old = self.need(st, "_v", "pos", 0, U64)
            self.observe_pos(st, old)
            new = opfn(self.I, st, ty, old, arg)
            self.rmw_pos(st, old, new)
            self.done_with(st, "_v")
            return old
        if role == "y":
            old = self.load_y(st, order, rmw=True)
            if isinstance(old, Outcomes):
                return old
            new = opfn(self.I, st, ty, old, arg)
            self.release(st, old, new, order)
            self.done_with(st, "_y")
            return old
        if role == "comp":
            old = self.load_comp(st, order)
            if isinstance(old, Outcomes):
                outs = []
                for s, v in old.outs:
                    new = opfn(self.I, s, ty, v, arg)
                    self.store_comp(s, new)
                    outs.append((s, v))
                return Outcomes(outs)
            new = opfn(self.I, st, ty, old, arg)
            self.store_comp(st, new)
            return old
        if role == "foreign":
            self.foreign(st)
        lo, hi = self.I.int_range(ty)
        v = self.need(st, "_v", "cell", lo, hi)
        self.done_with(st, "_v")
        return v

    def atomic_cas(self, st, c, p, ty, exp, new, o1, o2, weak):
        g = st.g
        I = self.I
        role = self.role(st, p) if g["mode"] == "shared" else None
        S = st.store

        def res(v, b):
            return Agg(c.dty, 0, (v, b))
        if role is None:
            old = I.read(st, p.base, p.path, ty)
            if decide_eq(S, I.as_int(old) - I.as_int(exp)):
                I.write(st, p.base, p.path, new)
                return res(old, True)
            return res(old, False)
        pick = self.need(st, "_pick", "cas", 0, 1)
        success = decide_eq(S, pick - 1)
        if role == "pos":
            if success:
                old = S.res(I.as_int(exp))
                if not self.observe_pos(st, old, may_fail=True):
                    return Outcomes([])
                self.rmw_pos(st, old, new)
                self.done_with(st, "_pick")
                return res(old, True)
            old = self.need(st, "_v", "pos", 0, U64)
            self.observe_pos(st, old)
            self.done_with(st, "_pick", "_v")
            J.mark(st, "casfail")
            return res(old, False)
        if role == "y":
            if success:
                old = self.load_y(st, o1, rmw=True)
                if isinstance(old, Outcomes):
                    return old
                if not S.assume_eq0(old - I.as_int(exp)):
                    return Outcomes([])
                self.release(st, old, new, o1)
                self.done_with(st, "_pick", "_y")
                return res(old, True)
            old = self.load_y(st, o2)
            if isinstance(old, Outcomes):
                return old
            self.done_with(st, "_pick", "_y")
            J.mark(st, "casfail")
            return res(old, False)
        if role == "comp":
            if success:
                r = self.load_comp(st, o1)
                outs = r.outs if isinstance(r, Outcomes) else [(st, r)]
                keep = []
                for s, v in outs:
                    self.done_with(s, "_pick")
                    if s.store.assume_eq0(v - I.as_int(exp)):
                        self.store_comp(s, new)
                        keep.append((s, res(v, True)))
                return Outcomes(keep)
            r = self.load_comp(st, o2)
            outs = r.outs if isinstance(r, Outcomes) else [(st, r)]
            for s, v in outs:
                self.done_with(s, "_pick")
                J.mark(s, "casfail")
            return Outcomes([(s, res(v, False)) for s, v in outs])
        if role == "foreign" and success:
            self.foreign(st)
        lo, hi = I.int_range(ty)
        v = self.need(st, "_v", "cell", lo, hi)
        self.done_with(st, "_pick", "_v")
        return res(v, success)

    def fence(self, st, order):
        g = st.g
        if g["mode"] == "shared" and g.get("ymr") and order in ACQ:
            g["ym"] = True

    # ---- position
    def observe_pos(self, st, s, may_fail=False):
        """the value s of the position cell is observed: s belongs to the values allowed by the other threads"""
        g = st.g
        S = st.store
        L = g["L"]
        if self.is_iter(st):
            # tickets: monotone up to MAX
            if not S.assume_ge0(s - g["plb"]):
                if may_fail:
                    return False
                raise Unsupported("position")
            g["plb"] = S.res(s)
            g["last"] = S.res(s)
            return True
        if g["end"]:
            if not S.assume_ge0(s - L):
                if may_fail:
                    return False
                raise Unsupported("position")
            g["obs"] = True
            g["last"] = S.res(s)
            return True
        if decide_ge(S, s - L):
            g["end"] = True
            g["obs"] = True
            g["plb"] = L
            g["last"] = S.res(s)
            return True
        if not S.assume_ge0(s - g["plb"]):
            if may_fail:
                return False
            # not reachable with monotone positions
            raise Unsupported("position")
        g["plb"] = S.res(s)
        g["last"] = S.res(s)
        return True

    def eff(self, st, v):
        L = st.g["L"]
        if decide_ge(st.store, v - L):
            return L
        return st.store.res(v)

    def rmw_pos(self, st, old, new):
        g = st.g
        S = st.store
        I = self.I
        new = S.res(I.as_int(new))
        old = S.res(old)
        L = g["L"]
        op = g["op"]
        if self.is_iter(st):
            return self.draw_ticket(st, old, new)
        oe = self.eff(st, old)
        ne = self.eff(st, new)
        if decide_ge(S, oe - ne - 1):
            self.bad(st, ("C01", "C04", "C05", "C06", "C08", "C16"), "the position moves backwards: already fetched positions are fetched again")
            raise Bad(("C01",), "the position moves backwards")
        self.ok(st, ("C01", "C04", "C05", "C16"), True, "")
        J.mark(st, "progress") if S.ge0(ne - oe - 1) else None
        g["last"] = new
        if op == "pull" and S.eq(g["n"], Lin(0)):
            self.ok(st, ("C16",), S.eq(oe, ne), "a pull of chunk size zero moves the position")
        elif op == "query":
            self.ok(st, ("C11", "C01"), S.eq(oe, ne), "a length query moves the position")
        if S.eq(oe, ne):
            return
        # effective reservation [oe, ne)
        if op in (None, "clone", "pair"):
            self.bad(st, ("C01",), "positions are reserved outside of a pull")
        if g["f"] is not None and not S.eq(g["b"], g["bk"]):
            if op == "raw":
                pass
            elif op == "skip" and not self.owes(st):
                pass
            elif op == "loop" or op == "skip":
                self.ok(st, ("C01", "C12", "C08"), S.eq(g["f"], g["bk"]),
                        "positions %r..%r were reserved but not delivered before the next reservation" % (S.res(g["f"]), S.res(g["bk"])))
            else:
                self.bad(st, ("C01", "C03", "C04"), "one pull reserves positions several times")
        g["b"] = oe
        g["f"] = oe
        g["bk"] = ne
        g["plb"] = ne
        if S.eq(ne, L):
            g["end"] = True
        if op == "pull":
            self.ok(st, ("C03", "C01"), decide_ge(S, g["n"] - (ne - oe)), "more positions are reserved than pulled")

    def draw_ticket(self, st, old, new):
        """wrapped iterators: [old, new) is the ticket, the elements are known when its turn comes"""
        g = st.g
        S = st.store
        op = g["op"]
        if not decide_ge(S, new - old):
            self.bad(st, ("C01", "C04", "C05", "C07", "C16"), "the ticket counter moves backwards")
            raise Bad(("C01",), "the ticket counter moves backwards")
        self.ok(st, ("C01", "C04", "C05", "C16"), True, "")
        g["last"] = new
        g["plb"] = new
        if op == "pull" and S.eq(g["n"], Lin(0)):
            self.ok(st, ("C16",), S.eq(old, new), "a pull of chunk size zero moves the position")
        elif op == "query":
            self.ok(st, ("C11", "C01"), S.eq(old, new), "a length query moves the position")
        moved = decide_ge(S, new - old - 1)
        if not moved and (op not in ("pull", "loop", "raw") or op == "pull" and S.eq(g["n"], Lin(0))):
            return
        if moved:
            J.mark(st, "progress")
        if op is None:
            self.bad(st, ("C01",), "positions are reserved outside of a pull")
        if g["t"] is not None and not g["served"]:
            self.ok(st, ("C09", "C01"), g["comp"], "another ticket is drawn before the previous one is served: its owner and all others wait forever")
        if g["f"] is not None:
            if self.ok(st, ("C01", "C12", "C08"), S.eq(g["f"], self.avail(st)), "elements were taken from the wrapped iterator but not delivered before the next reservation"):
                self.bury(st)
        g["t"] = g["b"] = g["f"] = old
        g["m"] = S.res(new - old)
        # partitions: the ticket is empty, limited by the maximum, or regular
        g["sat"] = 0 if not moved else 1 if decide_eq(S, new - U64) else 2
        g["served"] = False
        g["hold"] = False
        g["ym"] = g["ymr"] = False
        g["k"] = None
        g["ended"] = False
        if op == "pull":
            self.ok(st, ("C03", "C01"), decide_ge(S, g["n"] - g["m"]), "more positions are reserved than pulled")

    def store_pos(self, st, v):
        g = st.g
        S = st.store
        v = S.res(self.I.as_int(v))
        op = g["op"]
        if self.is_iter(st):
            self.ok(st, ("C01", "C05", "C06", "C07"), S.eq(v, Lin(U64)), "the ticket counter is overwritten by a value which may already have been fetched")
            g["plb"] = Lin(U64)
            g["last"] = v
            return
        if op not in ("skip", "raw"):
            self.bad(st, ("C01", "C04"), "the position is overwritten by a plain store outside of skip_to_end")
        if not self.ok(st, ("C01", "C05", "C06"), S.ge0(v - g["L"]), "the position is overwritten by a plain store of a value below the length: positions may be fetched again"):
            return
        if g["kind"] in ("vec", "array"):
            self.ok(st, ("C08", "C15"), False, "elements which are not yet fetched are skipped by a plain store: they are never dropped")
        g["end"] = True
        g["obs"] = True
        g["plb"] = g["L"]
        g["last"] = v

    # ---- wrapped iterator: completed flag, tickets
    def load_comp(self, st, order):
        g = st.g
        S = st.store
        if g["comp"]:
            g["cobs"] = True
            return Lin(1)
        if g["ym"] and not g["hold"] and not g["served"] and g["t"] is not None:
            # the end was passed: the flag is set
            if decide_ge(S, g["t"] - g["L"] - 1):
                g["comp"] = True
                g["cobs"] = True
                return Lin(1)
        s2 = st.copy()
        s2.g["comp"] = True
        s2.g["cobs"] = True
        g["cobs"] = False
        J.mark(st, "ldC")
        if g["t"] is not None and not g["served"] and not g["hold"] and g["ym"]:
            g["hold"] = True
            g["k"] = g["t"]
            if not S.assume_ge0(g["L"] - g["t"]):
                return Outcomes([(s2, Lin(1))])
        return Outcomes([(s2, Lin(1)), (st, Lin(0))])

    def store_comp(self, st, v):
        g = st.g
        S = st.store
        v = self.I.as_int(v)
        if not S.ge0(Lin(1) - v):
            raise Unsupported("value of the completion flag")
        if decide_eq(S, v - 1):
            g["comp"] = True
            g["cobs"] = True
            if g["op"] == "pull" or g["op"] == "loop":
                # only a thread which has seen the end, or which unwinds, may complete the iteration
                legit = g["ended"] or st.unw
                self.ok(st, ("C01", "C04"), legit, "the iteration is marked as completed although the end is not reached")
            elif g["op"] == "query":
                self.bad(st, ("C01", "C11"), "a length query completes the iteration")
        else:
            self.ok(st, ("C05", "C06", "C09"), False, "the completion flag is reset")

    def load_y(self, st, order, rmw=False):
        g = st.g
        S = st.store
        if g["t"] is not None and not self.ticket_fits(st):
            return Outcomes([])
        if g["t"] is None:
            v = self.need(st, "_y", "yielded", 0, U64)
            if not rmw:
                self.done_with(st, "_y")
            return v
        if g["hold"]:
            return g["t"]
        if g["served"]:
            v = self.need(st, "_y", "yielded", 0, U64)
            if not S.assume_ge0(v - g["t"] - g["m"]):
                raise Unsupported("served count")
            if not rmw:
                self.done_with(st, "_y")
            return v
        if g["ym"] or g["ymr"]:
            if order in ACQ:
                g["ym"] = True
            return g["t"]
        v = self.need(st, "_y", "yielded", 0, U64)
        if not S.assume_ge0(g["t"] - v):
            raise Unsupported("served count")
        if decide_eq(S, v - g["t"]):
            if order in ACQ:
                g["ym"] = True
            g["ymr"] = True
            r = g["t"]
        else:
            J.mark(st, "ldY")
            r = v
        if not rmw:
            self.done_with(st, "_y")
        return r

    def ticket_fits(self, st):
        """the end of the ticket is a value of the ticket counter: joins may forget this relation"""
        g = st.g
        return st.store.assume_ge0(Lin(U64) - g["t"] - g["m"] - (1 if g["sat"] == 2 else 0))

    def release(self, st, old, new, order):
        """the number of served positions is changed"""
        g = st.g
        S = st.store
        new = S.res(self.I.as_int(new))
        if not g["hold"]:
            if old is not None and S.eq(old, new):
                return
            self.bad(st, ("C01", "C07", "C09"), "the count of served tickets is changed by a thread which does not have the turn")
            raise Bad(("C07",), "the count of served tickets is changed by a thread which does not have the turn")
        self.ok(st, ("C07",), order in REL, "the turn to use the wrapped iterator is passed on with ordering %s: the next use does not happen after this one" % order)
        t, m = g["t"], g["m"]
        want = t + m
        if not S.eq(want, new):
            if not S.ge0(new - want):
                self.bad(st, ("C09", "C01"), "less positions are marked as served than were reserved (%r instead of %r): the following tickets are never served" % (new, S.res(want)))
            else:
                self.bad(st, ("C01", "C07", "C02", "C09"), "more positions are marked as served than were reserved (%r instead of %r)" % (new, S.res(want)))
            raise Bad(("C09",), "wrong count of served tickets")
        full = decide_eq(S, g["k"] - want)
        if not full:
            self.ok(st, ("C05", "C07", "C01", "C02"), g["comp"],
                    "the turn is passed on after fewer than the reserved elements are taken while the iteration is not marked as completed: "
                    "the next thread advances the wrapped iterator past its end or at a wrong position")
        else:
            self.ok(st, ("C05", "C07", "C01", "C02", "C09"), True, "")
        g["hold"] = False
        g["served"] = True

    def src_next(self, st, c):
        g = st.g
        S = st.store
        I = self.I
        self.ev("src_next")
        if g["mode"] == "plain":
            self.bad(st, ("C01",), "the wrapped iterator is advanced while the concurrent iterator is constructed")
            raise Bad(("C01",), "early use of the wrapped iterator")
        if g["mode"] == "shared":
            if not g["hold"]:
                why = "without having the turn" if not g["served"] else "after the turn was passed on"
                self.bad(st, ("C07", "C01", "C02"), "the wrapped iterator is advanced %s: two threads may use it at the same time" % why)
                raise Bad(("C07",), "exclusive use")
            if g["ended"]:
                self.bad(st, ("C05", "C16", "C01"), "the wrapped iterator is advanced after it has reported its end")
                raise Bad(("C05",), "advance after the end")
            if not decide_ge(S, g["t"] + g["m"] - g["k"] - 1):
                self.bad(st, ("C01", "C02", "C04"), "the wrapped iterator is advanced beyond the reserved positions")
                raise Bad(("C01",), "advance beyond the reservation")
            self.ok(st, ("C07", "C05", "C01"), True, "")
        elif g["ended"]:
            pass
        J.mark(st, "progress")
        k = g["k"]
        outs = []
        s2 = st.copy()
        s3 = st.copy() if self.panics else None
        # an element
        if st.store.assume_ge0(g["L"] - k - 1):
            if g["kind"] == "iter":
                v = Tok("src", k)
            else:
                v = self.src_ref(st, c, k)
            g["k"] = st.store.res(k + 1)
            outs.append((st, I_some(I, c.dty, v)))
        if s2.store.assume_eq0(g["L"] - k):
            s2.g["ended"] = True
            outs.append((s2, Agg(c.dty, 0, ())))
        if s3 is not None:
            s3.g["thrown"] = True
            s3.g["srcpanic"] = True
            outs.append((s3, UNWIND))
        return Outcomes(outs)

    def src_ref(self, st, c, k):
        I = self.I
        o = st.g.get("_srcobj")
        if o is None or o not in st.objs:
            ref = I.T[I.T[c.dty]["variants"][1]["fields"][0][1]]
            el = ref["to"]
            o = new_id()
            st.objs[o] = Obj(I.p.slice_ty(el), Arr(((Lin(0), Lin(U64), Tok("pod" if I.T[el]["s"].endswith("Pod") else "src", IDXL)),)), "src")
            st.g["_srcobj"] = o
            st.g["_sh"] = st.g["_sh"] | {o}
        return Ptr(o, (("x", k),))

    def src_hint(self, st, c):
        g = st.g
        if g["mode"] == "shared" and not g["hold"]:
            self.bad(st, ("C07",), "the wrapped iterator is used without having the turn")
        I = self.I
        opt = I.p.field_ty(c.dty, 1)
        L = g["L"]
        if g["mode"] == "plain":
            rest = L
        else:
            rest = L - (g["k"] if g.get("k") is not None else Lin(0))
        s1, s2, s3 = st, st.copy(), st.copy()
        outs = [(s1, Agg(c.dty, 0, (s1.store.res(rest), Agg(opt, 1, (s1.store.res(rest),)))))]
        s1.g["hint"] = "exact"
        if g["mode"] == "shared":
            # a pull which asks for the length: there is memory for the elements
            s1.store.assume_ge0(Lin(1 << 50) - rest)
        lo = self.param("hlo", 0, U64)
        hi = self.param("hhi", 0, U64)
        s2.g["hint"] = "inexact"
        if g["mode"] == "shared":
            s2.store.assume_ge0(Lin(1 << 50) - lo)
            s3.store.assume_ge0(Lin(1 << 50) - lo)
        if s2.store.assume_ge0(rest - lo):
            outs.append((s2, Agg(c.dty, 0, (lo, Agg(opt, 0, ())))))
        s3.g["hint"] = "inexact"
        if s3.store.assume_ge0(rest - lo) and s3.store.assume_ge0(hi - rest) and s3.store.assume_ge0(hi - lo - 1):
            outs.append((s3, Agg(c.dty, 0, (lo, Agg(opt, 1, (hi,))))))
        return Outcomes(outs)

    def src_drop(self, st, c):
        g = st.g
        if g["mode"] == "shared":
            self.bad(st, ("C07", "C08"), "the wrapped iterator is dropped while it is shared")
        elif g["mode"] == "plain":
            self.bad(st, ("C01", "C08"), "the wrapped iterator is dropped while the concurrent iterator is constructed")
        elif g["op"] == "seq" and g["phase"] != "drop" and not st.unw:
            self.bad(st, ("C10",), "the wrapped iterator is dropped rather than returned by into_seq_iter")
        self.ok(st, ("C08",), not g["sd"], "the wrapped iterator is dropped twice")
        g["sd"] = True
        return self.unit()

    def spin_ok(self, st, flags):
        # the wait for the turn: the count of served tickets and the completion flag are both read in each iteration
        return self.is_iter(st) and st.g["mode"] == "shared" and "ldY" in flags and "ldC" in flags and st.g.get("t") is not None and not st.g["served"]

    def no_progress(self, st, lk, pid, hid, fn, fr):
        self.violation(st, ("C09",), "loop without progress: a thread may wait forever (in %s)" % fn.short)

    # ------------------------------------------------------------------ elements
    def clone_elem(self, st, c):
        I = self.I
        p = I.as_ptr(c.args[0])
        v = I.read(st, p.base, p.path)
        if not isinstance(v, Tok) or v.kind not in ("src", "clone", "pod"):
            raise Bad(("C13", "C08"), "an invalid element is cloned")
        outs = []
        if self.panics:
            s2 = st.copy()
            s2.g["thrown"] = True
            outs.append((s2, UNWIND))
        if v.kind == "src":
            st.g["C"] = st.store.res(st.g["C"] + 1)
        outs.insert(0, (st, Tok("clone", v.pos)))
        return Outcomes(outs)

    def dropped_count(self, st, kind, n):
        g = st.g
        if kind == "left":
            J.mark(st, "progress")
            g["D"] = st.store.res(g["D"] - n)
            self.ok(st, ("C08",), st.store.ge0(g["D"]), "an element is dropped twice")
        else:
            raise Unsupported("drop of %s" % kind)

    def dropped(self, st, kind, lo, hi):
        g = st.g
        S = st.store
        self.ev("drop")
        if kind == "clone":
            g["C"] = S.res(g["C"] - (hi - lo))
            if g["op"] in ("pull", "loop") and g["phase"] != "drop" and not st.unw and g["mode"] == "shared":
                self.bad(st, ("C01", "C13"), "a cloned element is dropped rather than delivered")
            return
        if kind == "pod":
            return
        if kind != "src":
            raise Unsupported("drop of %s" % kind)
        if not self.consuming(st):
            self.bad(st, ("C08", "C13", "C19"), "an element of the borrowed source is dropped")
            return
        if g["mode"] == "plain":
            self.bad(st, ("C08", "C01"), "an element is dropped while the iterator is constructed")
            return
        if g.get("f") is None:
            self.bad(st, ("C08", "C01"), "an element at position %r is dropped which is not reserved" % S.res(lo))
            raise Bad(("C08",), "drop of an element which is not owned")
        J.mark(st, "progress")
        f = g["f"]
        av = self.avail(st)
        if g["mode"] == "shared" and g["op"] in ("pull", "loop") and g["phase"] != "drop" and not st.unw:
            self.bad(st, ("C01", "C08", "C04"), "a reserved element is dropped rather than delivered")
        if g["op"] == "seq" and g["phase"] != "drop" and not st.unw:
            self.bad(st, ("C10", "C08"), "an undelivered element is dropped rather than returned by into_seq_iter")
        if decide_eq(S, lo - f):
            if not decide_ge(S, av - hi):
                self.bad(st, ("C08", "C01"), "an element at position %r is dropped which is owned by someone else" % S.res(hi - 1))
                raise Bad(("C08",), "drop of an element which is not owned")
            self.ok(st, ("C08",), True, "")
            g["f"] = S.res(hi)
        elif S.eq(hi, av) and S.ge0(lo - f) and not self.is_iter(st):
            self.ok(st, ("C08",), True, "")
            g["bk"] = S.res(lo)
        else:
            self.bad(st, ("C08", "C01"), "an element at position %r is dropped which is already moved out, dropped or owned by someone else" % S.res(lo))
            raise Bad(("C08",), "drop of an element which is not owned")

    def identify(self, st, v):
        """(form, position) of a delivered value"""
        if isinstance(v, Tok) and v.kind in ("src", "clone", "pod") and v.pos is not None:
            return v.kind, v.pos
        if isinstance(v, Tok) and v.kind == "left":
            return "left", None
        if isinstance(v, Ptr) and not v.is_addr() and v.base == st.g.get("_srcobj") and v.path:
            xs = [e for e in v.path if e[0] == "x"]
            if len(xs) == 1:
                return "ref", xs[0][1]
        if isinstance(v, Lin):
            if st.g.get("a") is not None:
                return "range", v - st.g["a"]
        if isinstance(v, Agg) and len(v.fs) == 1:
            return self.identify(st, v.fs[0])
        return "other", None

    def deliver(self, st, v, idx, how):
        g = st.g
        S = st.store
        J.mark(st, "progress")
        form, pos = self.identify(st, v)
        extra = ()
        if form == "left":
            self.bad(st, ("C01", "C02", "C04", "C08"), "an element of an earlier chunk is delivered again")
            raise Bad(("C01",), "stale element")
        if v is UN:
            self.bad(st, ("C01", "C02", "C08", "C17"), "an uninitialised or already moved value is delivered")
            raise Bad(("C08",), "uninitialised element")
        if form == "other" and isinstance(v, Ptr):
            self.bad(st, ("C01", "C02", "C13", "C19", "C14"), "a delivered reference does not point at an element of the source")
            raise Bad(("C19",), "foreign reference")
        if form != g["form"]:
            self.bad(st, ("C01", "C02", "C13", "C19", "C16"), "a delivered value is not an element of the source: %s instead of %s" % (form, g["form"]))
            raise Bad(("C01",), "foreign element")
        if form == "clone":
            g["C"] = S.res(g["C"] - 1)
        pos = S.res(pos)
        if g.get("f") is None:
            self.bad(st, ("C01", "C04", "C08"), "an element is delivered although no position is reserved")
            raise Bad(("C01",), "element without reservation")
        f, bk = g["f"], self.avail(st)
        if not decide_ge(S, bk - f - 1):
            self.bad(st, ("C01", "C03", "C04", "C08", "C16"), "more elements are delivered than reserved")
            raise Bad(("C01",), "element outside of the reservation")
        if not S.eq(pos, f):
            d = S.ge0(pos - f) and S.ge0(bk - pos - 1)
            ps = ("C04", "C02") if d else ("C01", "C02", "C04", "C08", "C16", "C19")
            self.bad(st, ps, "the element at position %r is delivered where the element at position %r is due" % (pos, S.res(f)))
            raise Bad(("C02",), "wrong element")
        self.ok(st, ("C01", "C02", "C04", "C16"), True, "")
        if self.consuming(st):
            self.ok(st, ("C08",), True, "")
        if g["kind"] == "slice" and not g["adapt"]:
            self.ok(st, ("C19", "C14"), True, "")
        if idx is not None:
            self.ok(st, ("C02",), S.eq(idx, pos), "the reported index %r differs from the position %r of the element" % (S.res(idx), pos))
        g["f"] = S.res(f + 1)

    # ------------------------------------------------------------------ pulls
    def ev_pull_begin(self, st, c):
        self.ev("pull_begin")
        g = st.g
        self.clear_op(st)
        g["op"] = "pull"
        g["n"] = self.I.as_int(c.args[0])
        g["chunky"] = g["n"] != Lin(1)
        return self.unit()

    def ev_got(self, st, c):
        self.ev("got")
        self.one(st, None, c.args[0])
        return self.unit()

    def ev_got_at(self, st, c):
        self.ev("got_at")
        self.one(st, self.I.as_int(c.args[0]), c.args[1])
        return self.unit()

    def one(self, st, idx, v):
        g = st.g
        self.deliver(st, v, idx, "single")
        g["got"] = True

    def ev_pull_none(self, st, c):
        self.ev("pull_none")
        g = st.g
        S = st.store
        if S.eq(g["n"], Lin(0)):
            g["got"] = True
            return self.unit()
        if self.is_iter(st):
            if not self.ok(st, ("C01", "C05", "C04", "C03"), g["comp"], "the end is reported although the iteration is not completed"):
                pass
            if g["k"] is not None and g["f"] is not None:
                self.ok(st, ("C01", "C08"), S.eq(g["f"], g["k"]), "elements are taken from the wrapped iterator and lost")
        else:
            r = g["f"] is not None and not S.eq(g["f"], g["bk"])
            if r:
                self.bad(st, ("C01", "C04", "C08"), "positions %r..%r are reserved but the end is reported" % (S.res(g["f"]), S.res(g["bk"])))
            self.ok(st, ("C05", "C01", "C04", "C03"), g["end"], "the end is reported although it is not reached")
        g["got"] = True
        return self.unit()

    def ev_pull_end(self, st, c):
        self.ev("pull_end")
        g = st.g
        S = st.store
        self.end_of_op(st)
        if g["got"] is not True:
            raise Unsupported("pull without a result")
        if g["chunk"] is None and g["f"] is not None and not self.is_iter(st):
            self.ok(st, ("C01", "C04"), S.eq(g["f"], g["bk"]), "reserved positions are not delivered")
        self.clear_op(st)
        if self.is_iter(st):
            self.bury(st)
            self.retire(st)
        g["op"] = None
        return self.unit()

    def bury(self, st):
        """after a pull no obtained element is left in local memory: what is still found there are copies of elements which were moved out"""
        g = st.g
        S = st.store
        sh = g["_sh"]
        src = g.get("_srcobj")
        nd = S.eq(g["D"], Lin(0))
        nc = S.eq(g["C"], Lin(0))
        for o, ob in list(st.objs.items()):
            if ob.kind != "heap" or o in sh or not isinstance(ob.val, Arr):
                continue
            segs = []
            ch = False
            for a, b, t in ob.val.segs:
                x = t
                if isinstance(t, Tok):
                    if t.kind == "src" and nd or t.kind == "clone" and nc:
                        x = UN
                    elif t.kind == "pod":
                        x = Tok("stale", None)
                elif isinstance(t, Ptr) and src is not None and t.base == src:
                    x = Tok("stale", None)
                ch = ch or x is not t
                segs.append((a, b, x))
            if ch:
                st.objs[o] = Obj(ob.ty, Arr(normalise(S, segs)), ob.kind, ob.es)

    def retire(self, st):
        """buffers of optional elements are summarised when a pull is over: each element is none or some undelivered element"""
        g = st.g
        S = st.store
        sh = g["_sh"]
        for o, ob in list(st.objs.items()):
            if ob.kind != "heap" or o in sh or not isinstance(ob.val, Arr) or ob.ty is None:
                continue
            et = self.I.T[self.I.T[ob.ty]["elem"]]
            if not (et["k"] == "adt" and et["name"].endswith("Option")):
                continue
            segs = []
            n = Lin(0)
            okk = True
            for a, b, t in ob.val.segs:
                if t is UN:
                    segs.append((a, b, t))
                    continue
                if isinstance(t, Agg):
                    if t.var == 1:
                        x = t.fs[0]
                        if isinstance(x, Tok) and x.kind == "left":
                            n = n + (b - a)
                        elif not (isinstance(x, Ptr) and x.base == g.get("_srcobj")) and not (isinstance(x, Tok) and x.kind == "stale"):
                            okk = False
                elif t != OPT:
                    okk = False
                segs.append((a, b, OPT))
            if okk:
                st.objs[o] = Obj(ob.ty, Arr(normalise(S, segs)), ob.kind, ob.es)
                g["D"] = S.res(g["D"] - n)

    def stale(self, st):
        if st.g["kind"] == "iter":
            st.g["D"] = st.store.res(st.g["D"] + 1)
            return Tok("left", None)
        return Tok("stale", None)

    def overwritten(self, st):
        if st.g["kind"] == "iter":
            self.bad(st, ("C08", "C15"), "an element of a chunk which was not consumed may be forgotten without being dropped")

    def ev_chunk(self, st, c):
        self.ev("chunk")
        g = st.g
        S = st.store
        begin = self.I.as_int(c.args[0])
        ln = self.I.as_int(c.args[1])
        n = g["n"]
        g["got"] = True
        if S.eq(n, Lin(0)):
            self.bad(st, ("C16", "C03"), "a pull of chunk size zero returns a chunk")
            raise Bad(("C16",), "chunk of size zero")
        if g["f"] is None:
            if not decide_ge(S, ln - 1):
                self.bad(st, ("C03", "C16", "C05"), "an empty chunk is returned")
            else:
                self.bad(st, ("C01", "C03", "C05"), "a chunk is returned although nothing is reserved")
            raise Bad(("C03",), "chunk without reservation")
        f, bk = g["f"], self.avail(st)
        self.ok(st, ("C02", "C03"), S.eq(begin, f), "the begin index %r of a chunk differs from the first reserved position %r" % (S.res(begin), S.res(f)))
        self.ok(st, ("C03", "C01"), S.eq(ln, bk - f), "a chunk announces %r elements while %r positions are reserved" % (S.res(ln), S.res(bk - f)))
        if not decide_ge(S, ln - 1):
            self.bad(st, ("C03", "C16"), "an empty chunk is returned")
        if not decide_ge(S, n - ln):
            self.bad(st, ("C03",), "a chunk is longer than the chunk size")
        if not decide_eq(S, n - ln):
            self.ok(st, ("C03",), S.eq(f + ln, g["L"]), "a chunk is shorter than the chunk size although it does not end at the last element")
        self.ok(st, ("C03", "C16"), True, "")
        g["chunk"] = True
        return self.unit()

    def rest(self, st):
        return self.avail(st) - st.g["f"]

    def ev_chunk_hint(self, st, c):
        g = st.g
        S = st.store
        h = c.args[0]
        lo, hi = h.fs
        r = self.rest(st)
        self.ok(st, ("C03", "C17"), S.eq(lo, r), "size_hint of a chunk reports at least %r elements while %r are left" % (S.res(lo), S.res(r)))
        okhi = hi.var == 1 and S.eq(hi.fs[0], r)
        self.ok(st, ("C03", "C17"), okhi, "the upper bound of size_hint of a chunk is not the number of elements which are left")
        return self.unit()

    def ev_chunk_len(self, st, c):
        S = st.store
        self.ok(st, ("C03",), S.eq(self.I.as_int(c.args[0]), self.rest(st)), "len of a chunk differs from the number of elements which are left")
        return self.unit()

    def ev_chunk_item(self, st, c):
        self.ev("chunk_item")
        self.deliver(st, c.args[0], None, "chunk")
        return self.unit()

    def ev_chunk_exhausted(self, st, c):
        self.ev("chunk_exhausted")
        g = st.g
        S = st.store
        self.ok(st, ("C03", "C01"), S.eq(g["f"], self.avail(st)), "a chunk ends although %r announced elements are left" % S.res(self.rest(st)))
        return self.unit()

    def take(self, st, key):
        v = st.g[key]
        st.g[key] = None
        return v

    # elements may be skipped: they are dropped by the chunk if they are owned
    def skipping(self, st, begin, k):
        """the cursor when k elements are skipped"""
        st.g["phase"] = None
        if self.owes(st):
            return
        st.g["f"] = st.store.res(begin + k)

    def ev_chunk_nth_begin(self, st, c):
        g = st.g
        g["phase"] = "drop"
        g["nb"], g["nk"] = g["f"], self.I.as_int(c.args[0])
        return self.unit()

    def ev_chunk_nth(self, st, c):
        self.ev("chunk_nth")
        g = st.g
        S = st.store
        begin, k = self.take(st, "nb"), self.take(st, "nk")
        if not decide_ge(S, self.avail(st) - begin - k - 1):
            self.bad(st, ("C03", "C02"), "nth of a chunk returns an element although fewer elements are left")
            raise Bad(("C03",), "nth")
        self.skipping(st, begin, k)
        self.ok(st, ("C03", "C02"), S.eq(g["f"], begin + k), "nth of a chunk does not skip the requested number of elements")
        self.deliver(st, c.args[0], None, "chunk")
        return self.unit()

    def ev_chunk_nth_none(self, st, c):
        self.ev("chunk_nth_none")
        g = st.g
        S = st.store
        begin, k = self.take(st, "nb"), self.take(st, "nk")
        self.ok(st, ("C03", "C01"), S.ge0(begin + k - self.avail(st)), "nth of a chunk reports the end although an element is left")
        self.skipping(st, self.avail(st), Lin(0))
        return self.unit()

    def ev_chunk_count(self, st, c):
        self.ev("chunk_count")
        g = st.g
        S = st.store
        self.ok(st, ("C03",), S.eq(self.I.as_int(c.args[1]), self.I.as_int(c.args[0])), "count of a chunk differs from its length")
        return self.unit()

    def ev_chunk_drop(self, st, c):
        st.g["phase"] = "drop"
        return self.unit()

    def ev_done(self, st, c):
        """all local values of the operations are dropped"""
        self.ev("done")
        g = st.g
        S = st.store
        self.released(st)
        g["mode"] = "over"
        return self.unit()

    def released(self, st, *extra):
        g = st.g
        S = st.store
        self.ok(st, ("C08", "C15") + extra, S.eq(g["D"], Lin(0)), "%r elements which were not delivered are never dropped" % S.res(g["D"]))
        self.ok(st, ("C13", "C15") + extra, S.eq(g["C"], Lin(0)), "%r clones are neither delivered nor dropped" % S.res(g["C"]))
        sh = g["_sh"]
        for o, ob in st.objs.items():
            if ob.kind == "heap" and o not in sh:
                self.ok(st, ("C15",) + extra, False, "heap memory allocated by the iterator is not released")
                break
        else:
            self.ok(st, ("C15",), True, "")

    # ------------------------------------------------------------------ exclusive use: destructor, into_seq_iter
    def ev_unshare(self, st, c):
        """no pull is in flight: the iterator is in any state which a history of operations can leave"""
        self.ev("unshare")
        g = st.g
        I = self.I
        self.clear_op(st)
        g["mode"] = "excl"
        g["end"] = False
        g["comp"] = False
        sh = frozenset(o for o in g["_sh"] if o in st.objs and st.objs[o].kind == "src")
        g["_sh"] = sh
        outs = []

        def wrap(old, v):
            # the atomic types are wrappers of one number
            if isinstance(old, Agg):
                big = [i for i, x in enumerate(old.fs) if not (isinstance(x, Agg) and not x.fs)]
                if len(big) != 1:
                    raise Unsupported("layout of an atomic type")
                return Agg(old.ty, old.var, tuple(wrap(x, v) if i == big[0] else x for i, x in enumerate(old.fs)))
            return v

        def put(s, role, v):
            for o, path, r in s.g["_cells"]:
                if r == role:
                    I.write(s, o, path, wrap(I.read(s, o, path), v))
        put(st, "other", self.param("cell", 0, U64))
        L = g["L"]
        if self.is_iter(st):
            k = self.param("k", 0, 1 << 63)
            s2 = st.copy()
            if st.store.assume_ge0(L - k):
                st.g["k"] = st.g["f"] = k
                put(st, "pos", k)
                put(st, "y", k)
                put(st, "comp", Lin(0))
                outs.append((st, self.unit()))
            if s2.store.assume_ge0(L - k):
                p = self.param("pos", 0, U64)
                y = self.param("served", 0, U64)
                s2.store.assume_ge0(p - y)
                s2.g["k"] = s2.g["f"] = k
                s2.g["comp"] = True
                put(s2, "pos", p)
                put(s2, "y", y)
                put(s2, "comp", Lin(1))
                outs.append((s2, self.unit()))
            return Outcomes(outs)
        p = self.param("pos", 0, U64)
        s2 = st.copy()
        for s, cond, f in ((st, L - p - 1, p), (s2, p - L, L)):
            if s.store.assume_ge0(cond):
                put(s, "pos", p)
                s.g["f"] = s.g["b"] = s.store.res(f)
                s.g["bk"] = L
                s.g["state"] = "open" if s is st else "exhausted"
                outs.append((s, self.unit()))
        return Outcomes(outs)

    def ev_dropping(self, st, c):
        st.g["op"] = "drop"
        st.g["phase"] = "drop"
        return self.unit()

    def ev_seq_begin(self, st, c):
        st.g["op"] = "seq"
        return self.unit()

    def ev_seq_converted(self, st, c):
        self.ev("seq_converted")
        return self.unit()

    def ev_seq_item(self, st, c):
        self.ev("seq_item")
        self.deliver(st, c.args[0], None, "seq")
        return self.unit()

    def ev_seq_end(self, st, c):
        self.ev("seq_end")
        g = st.g
        S = st.store
        if self.is_iter(st):
            self.ok(st, ("C10",), g["ended"], "the iterator returned by into_seq_iter ends although the wrapped iterator does not")
        self.ok(st, ("C10",), S.eq(g["f"], self.avail(st)), "the iterator returned by into_seq_iter ends although %r elements are not delivered" % S.res(self.rest(st)))
        return self.unit()

    def ev_seq_drop(self, st, c):
        st.g["phase"] = "drop"
        return self.unit()

    def ev_all_dropped(self, st, c):
        self.ev("all_dropped")
        self.gone(st)
        st.g["mode"] = "over"
        return self.unit()

    def gone(self, st, *extra):
        """everything is dropped"""
        g = st.g
        S = st.store
        if self.owes(st):
            self.ok(st, ("C08", "C15") + extra, S.eq(g["f"], self.avail(st)), "%r elements which were not delivered are never dropped" % S.res(self.rest(st)))
        if self.is_iter(st):
            self.ok(st, ("C08", "C15") + extra, g["sd"], "the wrapped iterator is never dropped")
        self.released(st, *extra)

    # ------------------------------------------------------------------ low-level safe methods: positions may be lost, but never fetched twice
    def ev_raw_begin(self, st, c):
        self.ev("raw_begin")
        self.clear_op(st)
        st.g["op"] = "raw"
        return self.unit()

    def ev_raw_end(self, st, c):
        self.ev("raw_end")
        g = st.g
        self.clear_op(st)
        g["op"] = None
        g["D"] = Lin(0)
        g["C"] = Lin(0)
        return self.unit()

    # ------------------------------------------------------------------ independent iterators
    def ev_clone_begin(self, st, c):
        self.ev("clone_begin")
        self.clear_op(st)
        st.g["op"] = st.g["indep"] = "clone"
        return self.unit()

    def ev_pair_begin(self, st, c):
        self.clear_op(st)
        st.g["op"] = st.g["indep"] = "pair"
        return self.unit()

    def second(self, st, c):
        g = st.g
        I = self.I
        old = g["_cells"]
        ctr = I.as_ptr(c.args[1])
        it = I.as_ptr(c.args[0])
        if not ctr.is_addr() and (self.role(st, ctr) or any(o in self.reach(st, [it.base]) for o, _, _ in old)):
            self.bad(st, ("C19",), "the position of the new iterator is the position of the existing one")
            raise Bad(("C19",), "shared position")
        it, cells = self.register(st, c)
        pos = [x for x in cells if x[2] == "pos"][0]
        v = I.as_ptr(I.read(st, pos[0], pos[1]))
        g["_cells"] = tuple(cells) + tuple((o, p, "foreign") for o, p, _ in old)
        g["_sh"] = g["_sh"] | frozenset(self.reach(st, [it.base]))
        return v

    def ev_clone_end(self, st, c):
        self.ev("clone_end")
        g = st.g
        S = st.store
        v = self.second(st, c)
        last = g["last"]
        self.ok(st, ("C19",), last is not None and isinstance(v, Lin) and S.eq(v, last), "a clone does not start at the position of the original")
        self.clear_op(st)
        g["op"] = None
        return self.unit()

    def ev_pair_end(self, st, c):
        self.ev("pair_end")
        g = st.g
        S = st.store
        v = self.second(st, c)
        self.ok(st, ("C19",), isinstance(v, Lin) and S.eq(v, Lin(0)), "a second iterator over a collection does not start at its beginning")
        self.clear_op(st)
        g["op"] = None
        g["end"] = False
        g["plb"] = Lin(0)
        return self.unit()

    # ------------------------------------------------------------------ loops
    def ev_loop_begin(self, st, c):
        self.clear_op(st)
        st.g["op"] = "loop"
        return self.unit()

    def throw(self, st):
        if not self.panics:
            return None
        s2 = st.copy()
        s2.g["thrown"] = True
        return s2

    def ev_visit(self, st, c):
        self.ev("visit")
        self.deliver(st, c.args[0], None, "loop")
        s2 = self.throw(st)
        return Outcomes([(st, self.unit()), (s2, UNWIND)]) if s2 else self.unit()

    def ev_visit_at(self, st, c):
        self.ev("visit_at")
        self.deliver(st, c.args[1], self.I.as_int(c.args[0]), "loop")
        s2 = self.throw(st)
        return Outcomes([(st, self.unit()), (s2, UNWIND)]) if s2 else self.unit()

    def ev_fold_init(self, st, c):
        return Agg(c.dty, 0, (Tok("acc", Lin(0)),))

    def acc(self, st, v):
        while isinstance(v, Agg) and v.fs:
            v = v.fs[0]
        return v

    def ev_fold_op(self, st, c):
        self.ev("fold_op")
        g = st.g
        a = self.acc(st, c.args[0])
        n = g["fold"] if g["fold"] is not None else Lin(0)
        S = st.store
        self.ok(st, ("C12",), isinstance(a, Tok) and a.kind == "acc" and S.eq(a.pos, n), "the accumulator of fold is not the result of the previous step")
        self.deliver(st, c.args[1], None, "loop")
        g["fold"] = S.res(n + 1)
        s2 = self.throw(st)
        v = Agg(c.dty, 0, (Tok("acc", g["fold"]),))
        return Outcomes([(st, v), (s2, UNWIND)]) if s2 else v

    def ev_fold_result(self, st, c):
        g = st.g
        a = self.acc(st, c.args[0])
        S = st.store
        n = g["fold"] if g["fold"] is not None else Lin(0)
        self.ok(st, ("C12",), isinstance(a, Tok) and a.kind == "acc" and S.eq(a.pos, n), "the result of fold is not the accumulator of the last step")
        return self.unit()

    def ev_loop_returned(self, st, c):
        self.ev("loop_returned")
        g = st.g
        S = st.store
        if self.is_iter(st):
            self.ok(st, ("C12", "C01"), g["comp"], "the loop returns although the iteration is not completed")
            if g["k"] is not None and g["f"] is not None:
                self.ok(st, ("C12", "C08"), S.eq(g["f"], g["k"]), "elements are taken from the wrapped iterator but not visited")
        else:
            self.ok(st, ("C12", "C01"), g["end"], "the loop returns although the iteration is not exhausted")
            if g["f"] is not None:
                self.ok(st, ("C12", "C01"), S.eq(g["f"], g["bk"]), "reserved positions %r..%r are not visited" % (S.res(g["f"]), S.res(g["bk"])))
        self.end_of_op(st)
        self.clear_op(st)
        g["op"] = None
        return self.unit()

    def ev_must_panic(self, st, c):
        st.g["must"] = True
        return self.unit()

    def ev_not_reached(self, st, c):
        self.bad(st, ("C16", "C12"), "an operation returns where the documentation promises a panic")
        raise Bad(("C16",), "missing panic")

    # ------------------------------------------------------------------ queries and skip
    def ev_query_begin(self, st, c):
        self.clear_op(st)
        st.g["op"] = "query"
        return self.unit()

    def check_len(self, st, val):
        """val: None or a length"""
        g = st.g
        S = st.store
        L = g["L"]
        if self.is_iter(st):
            if g["comp"]:
                self.ok(st, ("C11", "C05"), val is not None and S.eq(val, Lin(0)), "a completed iteration does not report the length zero")
                return
            if g["hint"] != "exact":
                if val is None:
                    self.ok(st, ("C11",), g["cobs"] is False, "the length is reported as unknown without looking at the completion flag")
                else:
                    self.bad(st, ("C11",), "a length is reported although the size of the source is unknown")
                return
            if val is None:
                self.bad(st, ("C11",), "the length of a source of known size is reported as unknown")
                return
            s = g["last"]
            if s is None:
                self.bad(st, ("C11",), "a length is reported without looking at the position")
                return
            self.ok(st, ("C11", "C05"), g["cobs"] is False or S.eq(val, Lin(0)), "a positive length is reported without looking at the completion flag")
            want = Lin(0) if decide_ge(S, s - L) else L - s
            self.ok(st, ("C11",), S.eq(val, want), "the reported length %r differs from the number of remaining elements %r" % (S.res(val), S.res(want)))
            return
        if val is None:
            self.bad(st, ("C11",), "the length of a source of known size is reported as unknown")
            return
        s = g["last"]
        if s is None:
            self.bad(st, ("C11",), "a length is reported without looking at the position")
            return
        want = Lin(0) if decide_ge(S, s - L) else L - s
        self.ok(st, ("C11", "C05", "C16"), S.eq(val, want), "the reported length %r differs from the number of remaining elements %r" % (S.res(val), S.res(want)))

    def ev_try_len(self, st, c):
        self.ev("try_len")
        o = c.args[0]
        self.check_len(st, None if o.var == 0 else o.fs[0])
        self.clear_op(st)
        st.g["op"] = None
        return self.unit()

    def ev_has_more(self, st, c):
        self.ev("has_more")
        o = c.args[0]
        name = self.I.T[o.ty]["variants"][o.var]["name"]
        S = st.store
        if name == "Yes":
            if self.ok(st, ("C11",), decide_ge(S, o.fs[0] - 1), "has_more reports Yes(0)"):
                self.check_len(st, o.fs[0])
        elif name == "Maybe":
            if self.is_iter(st):
                self.check_len(st, None)
            else:
                self.bad(st, ("C11",), "has_more reports Maybe for a source of known size")
        else:
            self.check_len(st, Lin(0))
        self.clear_op(st)
        st.g["op"] = None
        return self.unit()

    def ev_skip_begin(self, st, c):
        self.ev("skip")
        self.clear_op(st)
        st.g["op"] = "skip"
        return self.unit()

    def ev_skip_end(self, st, c):
        g = st.g
        S = st.store
        if self.is_iter(st):
            self.ok(st, ("C06",), g["comp"], "skip_to_end returns although the iteration is not completed")
        else:
            self.ok(st, ("C06",), g["end"] or S.ge0(g["plb"] - g["L"]), "skip_to_end returns although the end is not reached")
            if g["f"] is not None and self.owes(st):
                self.ok(st, ("C08", "C15"), S.eq(g["f"], g["bk"]), "skipped elements are not dropped")
        self.end_of_op(st)
        self.clear_op(st)
        g["op"] = None
        return self.unit()


def retag(v):
    if isinstance(v, Tok):
        return Tok("left", None) if v.kind == "src" else v
    if isinstance(v, Agg):
        if not v.fs:
            return v
        n = tuple(retag(x) for x in v.fs)
        return v if all(a is b for a, b in zip(n, v.fs)) else Agg(v.ty, v.var, n)
    if isinstance(v, Arr):
        n = tuple((a, b, retag(t)) for a, b, t in v.segs)
        return v if all(x[2] is y[2] for x, y in zip(n, v.segs)) else Arr(n)
    return v


def I_some(I, ty, v):
    return Agg(ty, 1, (v,))
