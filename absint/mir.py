"""Loads the MIR dump and provides type and control flow utilities."""
import json
import re


class Fn:
    __slots__ = ("id", "name", "kind", "crate", "path", "args", "trait_item", "diverges", "intrinsic", "has_body", "locals",
                 "argc", "spread", "blocks", "names", "span", "is_closure", "heads", "body", "live_in", "short", "addr_taken", "self_ty")


class Program:
    def __init__(self, file):
        with open(file) as f:
            d = json.load(f)
        self.files = d["files"]
        self.types = d["types"]
        self.ns = len(self.types)
        self.slice_of = {}
        for i, t in enumerate(self.types):
            if t["k"] == "slice":
                self.slice_of.setdefault(t["elem"], i)
        self.fns = []
        for i, f in enumerate(d["fns"]):
            x = Fn()
            x.id = i
            x.name = f["name"]
            x.kind = f["kind"]
            x.crate = f["crate"]
            x.path = f["path"]
            x.args = f["args"]
            x.trait_item = f["trait_item"]
            x.self_ty = f["self_ty"]
            x.diverges = f["diverges"]
            x.intrinsic = f["intrinsic"]
            b = f["body"]
            x.has_body = b is not None
            x.is_closure = re.search(r"\{closure#\d+\}$", x.path) is not None
            x.short = short(x.path)
            x.live_in = None
            x.heads = None
            if b:
                x.locals = b["locals"]
                x.argc = b["argc"]
                x.spread = b["spread"]
                x.blocks = b["blocks"]
                x.names = dict((l, n) for l, n in b["names"])
                x.span = b["span"]
            self.fns.append(x)
        self.probes = {n: i for n, i in d["probes"]}
        self.anchors = {n: i for n, i in d["anchors"]}
        self.tsame = {}

    # ---- types
    def T(self, t):
        return self.types[t]

    def size(self, t):
        return self.types[t].get("size")

    def is_zst(self, t):
        return self.types[t].get("size") == 0 and not self.types[t].get("unsized")

    def slice_ty(self, elem):
        s = self.slice_of.get(elem)
        if s is None:
            s = len(self.types)
            self.types.append({"k": "slice", "elem": elem, "s": "[%s]" % self.types[elem]["s"], "unsized": True, "size": 0})
            self.slice_of[elem] = s
        return s

    def same(self, a, b):
        if a == b:
            return True
        k = (a, b)
        r = self.tsame.get(k)
        if r is None:
            r = strip_lt(self.types[a]["s"]) == strip_lt(self.types[b]["s"])
            self.tsame[k] = r
        return r

    def field_ty(self, t, i, v=-1):
        ty = self.types[t]
        if ty["k"] in ("tuple", "closure"):
            return ty["fields"][i]
        if ty["k"] == "adt":
            return ty["variants"][v if v >= 0 else 0]["fields"][i][1]
        raise KeyError("field of %s" % ty["s"])

    def nfields(self, t, v=0):
        ty = self.types[t]
        if ty["k"] in ("tuple", "closure"):
            return len(ty["fields"])
        if ty["k"] == "adt":
            if not ty["variants"]:
                return 0
            return len(ty["variants"][v]["fields"])
        return 0

    def span(self, sp):
        return "%s:%d" % (shortfile(self.files[sp[0]]), sp[1])

    # ---- control flow
    def succs(self, fn, b):
        t = fn.blocks[b]["t"]
        k = t[0]
        r = []
        if k == "goto":
            r = [t[1]]
        elif k == "switch":
            r = [x[1] for x in t[2]] + [t[3]]
        elif k == "drop":
            r = [t[2]]
            if isinstance(t[3], int):
                r.append(t[3])
        elif k == "call":
            if t[4] is not None:
                r = [t[4]]
            if isinstance(t[5], int):
                r.append(t[5])
        elif k == "assert":
            r = [t[4]]
            if isinstance(t[5], int):
                r.append(t[5])
        return r

    def prepare(self, fn):
        """loop heads (targets of back edges of a depth first search) and liveness"""
        if fn.heads is not None:
            return
        n = len(fn.blocks)
        succ = [self.succs(fn, b) for b in range(n)]
        heads = set()
        backs = []
        color = [0] * n
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
                elif color[s] == 1:
                    heads.add(s)
                    backs.append((b, s))
            else:
                color[b] = 2
                stack.pop()
        fn.heads = heads
        pred = [[] for _ in range(n)]
        for b in range(n):
            for s in succ[b]:
                pred[s].append(b)
        fn.body = {}
        for u, h in backs:
            body = fn.body.setdefault(h, {h})
            todo = [u]
            while todo:
                b = todo.pop()
                if b not in body:
                    body.add(b)
                    todo.extend(pred[b])
        # liveness
        addr = set()
        gen = [None] * n
        kill = [None] * n
        for b in range(n):
            g = set()
            k = set()

            def use(l):
                if l not in k:
                    g.add(l)

            def use_place(p):
                use(p[0])
                for e in p[1]:
                    if e[0] == "i":
                        use(e[1])

            def use_op(o):
                if o[0] in ("c", "m"):
                    use_place(o[1])

            def def_place(p):
                if p[1]:
                    use_place(p)
                else:
                    k.add(p[0])

            for s, _ in fn.blocks[b]["s"]:
                if s[0] == "=":
                    r = s[2]
                    if r[0] in ("ref", "addr"):
                        use_place(r[1])
                        if not any(e[0] == "d" for e in r[1][1]):
                            addr.add(r[1][0])
                    elif r[0] in ("discr", "len"):
                        use_place(r[1])
                    elif r[0] == "agg":
                        for o in r[3]:
                            use_op(o)
                    elif r[0] in ("bin", "cbin"):
                        use_op(r[2])
                        use_op(r[3])
                    elif r[0] in ("cast", "un"):
                        use_op(r[2])
                    elif r[0] in ("use", "repeat"):
                        use_op(r[1])
                    def_place(s[1])
                elif s[0] == "setd":
                    use_place(s[1])
                elif s[0] == "assume":
                    use_op(s[1])
                elif s[0] == "copynon":
                    for o in s[1:]:
                        use_op(o)
                elif s[0] in ("live", "dead"):
                    k.add(s[1])
            t = fn.blocks[b]["t"]
            if t[0] == "switch":
                use_op(t[1])
            elif t[0] == "drop":
                use_place(t[1])
                if not any(e[0] == "d" for e in t[1][1]):
                    addr.add(t[1][0]) if t[1][1] else None
            elif t[0] == "call":
                if isinstance(t[1], dict) and "dyn" in t[1]:
                    use_op(t[1]["dyn"])
                for o in t[2]:
                    use_op(o)
                def_place(t[3])
            elif t[0] == "assert":
                use_op(t[1])
            elif t[0] == "ret":
                use(0)
            gen[b] = g
            kill[b] = k
        live = [set(g) for g in gen]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in succ[b]:
                    o |= live[s]
                new = gen[b] | (o - kill[b])
                if not new <= live[b]:
                    live[b] |= new
                    ch = True
        fn.live_in = live
        fn.addr_taken = addr


def strip_lt(s):
    import re
    s = re.sub(r"'(static|_|erased|[a-z]+)\b ?", "", s)
    s = re.sub(r"<(, )*>", "", s)
    s = s.replace("<, ", "<")
    return s


def shortfile(f):
    for m in ("/repo/", "/library/"):
        if m in f:
            return f.split(m, 1)[1] if m == "/repo/" else "std:" + f.split(m, 1)[1]
    if f.startswith("/"):
        return f.rsplit("/", 3)[-1]
    return f


def short(path):
    """readable form of the path of a function"""
    p = path.replace("orx_concurrent_iter::", "")
    p = re.sub(r"\biter::(implementors|buffered|default_fns|constructors|wrappers)::", "", p)
    p = re.sub(r"::<[^<>]*>", "", p)
    return p
