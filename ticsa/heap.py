"""Value flow over trees whose boxes can be written through: a box is a pointer to a cell of its own."""
from . import arith
from .absint import short, project
from .front import NONE, some
from .known import Known
from .maps import Maps


class Heap(Maps):
    DEEP = 300
    max_steps = 12000000
    max_depth = 200
    recursion = 120

    def box(self, st, v):
        self.nframe += 1
        root = ("heap", self.nframe)
        st.env[root] = v
        return ("ptr", root, ())

    def run(self, fn, args, st, depth):
        frame = self.nframe + 1
        for s, v in super().run(fn, args, st, depth):
            if fn.kind in ("fn", "closure"):
                # nothing points into what is gone
                for i in range(len(fn.locals)):
                    s.env.pop(("l", frame, i), None)
            yield s, v

    def load(self, st, root, path):
        for k, e in enumerate(path):
            if part(e):
                v = self.deref(st, self.load(st, root, path[:k]))
                if path[k + 1:]:
                    return self.load(st, root, path[:k] + (e[1] + path[k + 1],) + path[k + 2:])
                return ("arr", v[1][e[1]:e[2]])
        return super().load(st, root, path)

    def store(self, st, root, path, x):
        for k, e in enumerate(path):
            if part(e):
                if path[k + 1:]:
                    return self.store(st, root, path[:k] + (e[1] + path[k + 1],) + path[k + 2:], x)
                xs = self.deref(st, self.load(st, root, path[:k]))[1]
                return self.store(st, root, path[:k], ("arr", xs[:e[1]] + x[1] + xs[e[2]:]))
        cur = st.env.get(root)
        if cur is not None:
            for i, e in enumerate(path):
                if cur[0] == "ptr":
                    return self.store(st, cur[1], cur[2] + path[i:], x)
                if cur[0] == "adt" and isinstance(e, int) and e < len(cur[3]):
                    cur = cur[3][e]
                elif cur[0] in ("tup", "arr") and isinstance(e, int) and e < len(cur[1]):
                    cur = cur[1][e]
                elif isinstance(e, tuple) and e[0] == "v":
                    continue
                else:
                    cur = project(cur, (e,))
        super().store(st, root, path, x)

    def owned(self, st, v):
        """a copy that shares no cell"""
        if v[0] == "ptr":
            return self.box(st, self.owned(st, self.deref(st, v))) if v[1][0] == "heap" else v
        if v[0] in ("tup", "arr"):
            return (v[0], tuple(self.owned(st, x) for x in v[1]))
        if v[0] == "adt":
            return v[:3] + (tuple(self.owned(st, x) for x in v[3]),)
        return v

    def of(self, t, fn, i=0):
        """the type of an argument of a call"""
        from .mir import op_place
        o = t["args"][i]
        p = op_place(o)
        if p is not None and len(p) == 1:
            return self.prog.types[fn.locals[p[0]]]
        return self.prog.types[o["k"]["t"]] if "k" in o else None

    def self_type(self, t):
        a = t["f"].get("a") or []
        return self.prog.types[a[0]] if a else None

    def model(self, name, callee, args, st, t, fn):
        if t is not None and args and "core::num" in (t["f"].get("d") or ""):
            xs = [self.deep(st, v) for v in args]
            if all(x[0] == "c" and isinstance(x[1], int) for x in xs):
                k = arith.known(t["f"]["d"], [x[1] for x in xs])
                if k is not None:
                    c = ("c", int(k[1])) if k[1] is not None else None
                    return [(st, c if k[0] in ("number", "bool") else ("tup", (c, ("c", k[2]))) if k[0] == "pair" else NONE if c is None else some(c))]
        if name == "clone" and len(args) == 1 and t is not None:
            ty = self.self_type(t)
            v = args[0]
            v = self.load(st, v[1], v[2]) if v[0] == "ptr" else v
            if ty is not None and ty["k"] in ("ref", "ptr"):
                return [(st, v)]
            return [(st, self.owned(st, v))]
        return super().model(name, callee, args, st, t, fn)

    def std(self, name, d, args, st, t, fn, depth):
        own = d.rsplit("::", 1)[0]
        if t["t"] is not None:
            if name == "new" and len(args) == 1 and own.startswith("alloc::boxed::Box"):
                return [(st, self.box(st, args[0]))]
            if name in ("from", "into") and len(args) == 1 and self.dst_type(t, fn).startswith("alloc::boxed::Box<") and \
                    "[" not in self.dst_type(t, fn)[:20]:
                return [(st, self.box(st, args[0]))]
            if d.startswith("core::mem::") and name in ("swap", "replace", "take") and args[0][0] == "ptr":
                r1, p1 = self.place(st, args[0])
                old = self.load(st, r1, p1)
                if name == "swap":
                    r2, p2 = self.place(st, args[1])
                    new = self.load(st, r2, p2)
                    self.store(st, r2, p2, old)
                    self.store(st, r1, p1, new)
                    return [(st, ("tup", ()))]
                if name == "replace":
                    self.store(st, r1, p1, args[1])
                    return [(st, old)]
                if old[0] == "arr":
                    self.store(st, r1, p1, ("arr", ()))
                    return [(st, old)]
            if name == "into_iter" and args and args[0][0] == "ptr" and fn is not None:
                ty = self.of(t, fn)
                if ty is not None and ty["k"] == "ref" and ty["s"].startswith("&mut "):
                    s = self.slot(st, args[0])
                    if s:
                        root, path, v = s
                        return [(st, ("arr", tuple(("ptr", root, path + (i,)) for i in range(len(v[1])))))]
            if name == "index_mut" and len(args) == 2:
                s = self.slot(st, args[0])
                b = s and self.bounds(self.deep(st, args[1]), len(s[2][1]))
                if b and self.deep(st, args[1])[0] != "c":
                    return [(st, ("ptr", s[0], s[1] + (("part",) + tuple(b),)))]
            if name in ("collect", "from_iter") and args and self.concrete(args[0], st):
                to = self.dst_type(t, fn)
                if "HashSet" in to or "BTreeSet" in to or "HashMap" in to or "BTreeMap" in to:
                    out = []
                    for s, es in self.elems(args[0], st, depth + 1):
                        self.nframe += 1
                        root = ("mapval", self.nframe)
                        s.env[root] = ("arr", ())
                        for e in es:
                            e = self.deref(s, e)
                            if "Set" in to:
                                self.put_key(s, root, (), self.deep(s, e), None)
                            else:
                                self.put_key(s, root, (), self.deep(s, e[1][0]), e[1][1])
                        out.append((s, s.env[root]))
                    return out
            if name in ("sort_by_key", "sort_by_cached_key", "sort_unstable_by_key") and len(args) == 2:
                s0 = self.slot(st, args[0])
                if s0:
                    root, path, v = s0
                    live = [(st, ())]
                    for i in range(len(v[1])):
                        live = [(s2, ks + (self.deep(s2, k),)) for s, ks in live for s2, k in
                                self.apply(args[1], [("ptr", root, path + (i,))], s, depth)]
                    out = []
                    for s, ks in live:
                        order = sorted(range(len(ks)), key=lambda i: (sortable(ks[i]), i))
                        self.store(s, root, path, ("arr", tuple(v[1][i] for i in order)))
                        out.append((s, ("tup", ())))
                    return out
            if name == "contains" and len(args) == 2 and "::slice::" in d:
                s0, x = self.slot(st, args[0]), self.deep(st, args[1])
                xs = s0 and self.deep(st, s0[2])
                if xs and xs[0] == "arr" and ground(xs) and ground(x):
                    return [(st, ("c", int(x in xs[1])))]
            if name in ("retain", "retain_mut") and len(args) == 2:
                s0 = self.slot(st, args[0])
                if s0:
                    root, path, v = s0
                    live = [(st, ())]
                    for i in range(len(v[1])):
                        live = [(s3, ks + ((i,) if b else ())) for s, ks in live for s2, r in
                                self.apply(args[1], [("ptr", root, path + (i,))], s, depth) for s3, b in self.truth(s2, r)]
                    for s, ks in live:
                        self.store(s, root, path, ("arr", tuple(v[1][i] for i in ks)))
                    return [(s, ("tup", ())) for s, ks in live]
        return super().std(name, d, args, st, t, fn, depth)

    def fold(self, t, st):
        if t[1] in ("Eq", "Ne") and t[2][0] in ("adt", "tup", "arr", "s") and ground(t[2]) and ground(t[3]):
            return ("c", int((t[2] == t[3]) == (t[1] == "Eq")))
        if t[1] in ("Lt", "Le", "Gt", "Ge") and t[2][0] == t[3][0] == "adt" and t[2][1] == t[3][1] and not t[2][3] and not t[3][3]:
            return super().fold(("bin", t[1], ("c", t[2][2]), ("c", t[3][2])), st)
        return super().fold(t, st)

    def place(self, st, p):
        """where a pointer to a value points, through references but not into boxes"""
        root, path = p[1], p[2]
        while True:
            v = self.load(st, root, path)
            if v[0] != "ptr" or v[1][0] == "heap":
                return root, path
            root, path = v[1], v[2]


def part(e):
    """a step into a part of a list"""
    return isinstance(e, tuple) and e[0] == "part"


def ground(v):
    """the value is known, and equal to another only if it is the same term"""
    if v[0] in ("c", "s"):
        return True
    return v[0] in ("adt", "tup", "arr") and all(ground(x) for x in v[-1])


def sortable(k):
    if k[0] == "c":
        return (0, k[1])
    if k[0] == "adt":
        return (1, k[2], tuple(sortable(x) for x in k[3]))
    if k[0] in ("tup", "arr"):
        return (2, tuple(sortable(x) for x in k[1]))
    return (3, str(k))
