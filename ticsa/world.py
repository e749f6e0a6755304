"""Value flow through code that changes things behind references: maps, opaque
functions that change their arguments, and named paths into structs."""
from .absint import at_index
from .front import Front, project, some, NONE, short, OPTION, RESULT

MAPS = ("HashMap", "HashSet", "BTreeMap", "BTreeSet")
REFS = ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rc::Rc", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc")


def ismap(s):
    return any(m in s for m in MAPS)


class World(Front):
    """opaque: ids of functions that are not entered. Their mutable arguments become new
    versions ("after", n, old); the trace gets ("do", id, argument terms)."""
    max_steps = 200000

    def __init__(self, prog, closed=()):
        super().__init__(prog)
        self.closed = set(closed)
        self.pins = {}

    def opaque(self, fn, args):
        return fn.id in self.closed

    def pin(self, adt, vi):
        self.pins[adt] = vi

    def variant(self, v, adt, st):
        return self.pins.get(adt)

    def unknown(self, callee, args, st, t, fn):
        c = self.prog.fns.get(callee)
        if c is not None:
            old = tuple(self.deep(st, a) for a in args)
            n = len(st.trace)
            st.trace.append(("do", c.id, old))
            for i, (a, ty) in enumerate(zip(args, c.locals[1:])):
                if a[0] == "ptr" and self.prog.tstr(ty).startswith("&mut"):
                    root, path = self.target(st, a)
                    if old[i][0] != "map":
                        self.store(st, root, path, ("after", n, c.id, old[i]))
            yield st, ("ret", n, c.id) + old
            return
        yield from super().unknown(callee, args, st, t, fn)

    def on_drop(self, st, fn, t):
        if self.guards and "MutexGuard" in self.prog.tstr(t["ty"]):
            st.trace.append(("unlock",))

    guards = False
    current = False     # a look-up sees what was inserted and removed under the same key before

    entries = False     # what is done to an entry depends on whether it is there

    def entry(self, name, d, args, st, depth):
        e = self.deref(st, args[0])
        b = e
        while b[0] == "proj":
            b = b[1]
        if b[0] != "entry":
            return None
        at = ("at", b[1], b[2])
        fact = ("call", "discr", b)

        def put(s, v):
            v = self.deep(s, v)
            s.trace.append(("insert", b[1], b[2], v))
            self.store(s, ("mem", at), (), v)
            return s, ("ptr", ("mem", at), ())
        if "OccupiedEntry" in d:
            if name in ("get", "get_mut", "into_mut"):
                return [(st, ("ptr", ("mem", at), ()))]
            if name == "insert":
                return [put(st, args[1])]
            if name in ("remove", "remove_entry"):
                st.trace.append(("remove", b[1], b[2]))
                return [(st, at)]
            return None
        if "VacantEntry" in d:
            return [put(st, args[1])] if name in ("insert", "insert_entry") else None
        if name not in ("and_modify", "or_insert", "or_insert_with", "or_insert_with_key", "or_default"):
            return None
        known = st.facts.get(fact)
        ways = [(known, st)] if isinstance(known, int) else [(0, st.copy()), (1, st.copy())]
        out = []
        for w, s in ways:
            s.facts[fact] = w
            if name == "and_modify":
                if w == 0:
                    out += [(s2, e) for s2, _ in self.apply(args[1], [("ptr", ("mem", at), ())], s, depth)]
                else:
                    out.append((s, e))
            elif w == 0:
                out.append((s, ("ptr", ("mem", at), ())))
            elif name == "or_insert":
                out.append(put(s, args[1]))
            elif name == "or_default":
                out.append(put(s, ("sym", "default")))
            else:
                out += [put(s2, v) for s2, v in self.apply(args[1], [b[2]] if name.endswith("key") else [], s, depth)]
        return out

    grow = False        # lists that were made elsewhere are followed, too
    tries = False       # a question mark after an option that is not known goes both ways

    def last(self, st, m, key):
        for e in reversed(st.trace):
            if e[0] in ("insert", "insert?", "remove") and len(e) > 2 and e[1] == m and plain(e[2]) == plain(key):
                return "remove" if e[0] == "remove" else "insert"
        return None

    def std(self, name, d, args, st, t, fn, depth):
        r = t["f"].get("r") or ""
        dst = self.dst_type(t, fn)
        if self.tries and name == "branch" and OPTION in d + r:
            cf = "core::ops::control_flow::ControlFlow"
            return [(s2, ("adt", cf, 0, (x,)) if vi else ("adt", cf, 1, (NONE,))) for s2, vi, x in self.split(args[0], st)]
        if self.grow and "alloc::vec" in d + r and name == "push" and len(args) == 2 and args[0][0] == "ptr":
            root, path = self.target(st, args[0])
            old = self.deep(st, self.load(st, root, path))
            new = ("call", "push", old, self.deep(st, args[1]))
            st.trace.append(("grow", old, new[3]))
            self.store(st, root, path, new)
            return [(st, ("tup", ()))]
        if self.grow and name == "last" and len(args) == 1:
            v = self.deref(st, args[0])
            if v[:2] == ("call", "push"):
                return [(st, some(v[3]))]
        if self.guards and d == "core::mem::drop" and args:
            g = self.deep(st, args[0])
            while g[0] in ("proj", "upd"):
                g = g[1]
            if g[:2] == ("call", "lock"):
                st.trace.append(("unlock",))
                return [(st, ("tup", ()))]
        if name in ("new", "default", "with_capacity") and len(args) <= 1 and (ismap(d) or ismap(r) or ismap(dst.split("<")[0])):
            n = sum(1 for e in st.trace if e[0] == "newmap")
            st.trace.append(("newmap", n))
            return [(st, ("map", n))]
        if ismap(d) or ismap(r):
            m = self.deep(st, args[0]) if args else None
            if name == "insert":
                st.trace.append(("insert", m) + tuple(self.deep(st, a) for a in args[1:]))
                return [(st, ("call", "insert", m, self.deep(st, args[1])))]
            if name in ("get", "get_mut", "contains_key", "contains", "remove", "get_key_value"):
                was = self.last(st, m, self.deep(st, args[1])) if self.current else None
                st.trace.append(("remove" if name == "remove" else "ask", m, self.deep(st, args[1])))
                if was and name in ("contains_key", "contains"):
                    return [(st, ("c", int(was == "insert")))]
                if was and name in ("get", "get_mut", "remove"):
                    return [(st, some(("at", m, self.deep(st, args[1]))) if was == "insert" else NONE)]
                return [(st, ("call", {"get_mut": "get", "contains_key": "contains"}.get(name, name), m, self.deep(st, args[1])))]
            if name == "index":
                return [(st, ("at", m, self.deep(st, args[1])))]
            if name == "entry":
                return [(st, ("entry", m, self.deep(st, args[1])))]
        if self.entries and "Entry" in d and args:
            r = self.entry(name, d, args, st, depth)
            if r is not None:
                return r
        if "Entry" in d and args:
            e = self.deref(st, args[0])
            if e[0] == "entry" and name in ("or_insert", "or_insert_with", "or_default"):
                if name == "or_insert":
                    st.trace.append(("insert?", e[1], e[2], self.deep(st, args[1])))
                    return [(st, ("at", e[1], e[2]))]
                out = []
                for s2, v in self.apply(args[1], [], st, depth) if len(args) > 1 else [(st, ("sym", "default"))]:
                    s2.trace.append(("insert?", e[1], e[2], self.deep(s2, v)))
                    out.append((s2, ("at", e[1], e[2])))
                return out
        if name in ("index", "index_mut") and len(args) == 2 and self.deref(st, args[1])[0] == "index":
            return [(st, at_index(self.deep(st, args[0]), self.deref(st, args[1])))]
        if (name == "push_str" and "string::String" in d or name == "add_assign" and "String" in str(t["f"].get("r") or d)) and \
                len(args) == 2 and args[0][0] == "ptr":
            root, path = self.target(st, args[0])
            self.store(st, root, path, ("call", "push_str", self.deep(st, args[0]), self.deep(st, args[1])))
            return [(st, ("tup", ()))]
        if name in ("extend", "from_iter", "from", "collect") and args and (ismap(dst.split("<")[0]) or ismap(r) or ismap(d)):
            src = self.deref(st, args[-1])
            out = []
            n = sum(1 for e in st.trace if e[0] == "newmap")
            if name == "extend":
                m = self.deep(st, args[0])
            else:
                st.trace.append(("newmap", n))
                m = ("map", n)
            res = ("tup", ()) if name == "extend" else m
            isset = "Set" in dst.split("<")[0] + r + d
            for s, es in self.elems(src, st, depth + 1):
                for e in es:
                    e = self.deep(s, e)
                    s.trace.append(("insert", m, e) if isset else ("insert", m, project(e, (0,)), project(e, (1,))))
                out.append((s, res))
            return out
        return super().std(name, d, args, st, t, fn, depth)


def plain(t):
    while t[0] == "call" and t[1] in ("clone", "to_owned", "as_ref", "deref", "borrow") and len(t) == 3:
        t = t[2]
    return t


# ---- names of the parts of a value
def path(prog, t, roots):
    """named path of a term: ('unit', 'items', '*', 'defs', '*', 'symbol'); None if it is something else.
    roots: {term: (name, type id)}"""
    def peel(ty):
        while ty is not None:
            x = prog.types[ty]
            if x["k"] in ("ref", "ptr"):
                ty = x["t"]
            elif x["k"] == "adt" and x["d"] in REFS and x.get("a"):
                ty = x["a"][0]
            else:
                return ty
        return None

    def go(t):
        if t in roots:
            return (roots[t][0],), peel(roots[t][1]), None
        if t[0] == "proj":
            r = go(t[1])
            if r is None:
                return None
            p, ty, vi = r
            x = prog.types[ty] if isinstance(ty, int) else {"k": "?"}
            e = t[2]
            if isinstance(ty, tuple):
                return p + (str(e),), peel(ty[1 + e]) if isinstance(e, int) and e + 1 < len(ty) else None, None
            if isinstance(e, tuple) and e[0] == "v":
                return p, ty, e[1]
            if x["k"] == "tuple" and isinstance(e, int) and e < len(x["a"]):
                return p + (str(e),), peel(x["a"][e]), None
            if x["k"] == "adt" and isinstance(e, int):
                a = prog.adts.get(x["d"])
                if a and (a["kind"] != "enum" or vi is not None):
                    fs = a["variants"][vi or 0]["f"]
                    if e < len(fs):
                        n = fs[e]["n"] if a["kind"] != "enum" else "%s.%s" % (a["variants"][vi]["n"], fs[e]["n"])
                        if x["d"] in (OPTION, RESULT) and x.get("a"):
                            return p + (n,), peel(x["a"][(vi or 0) if x["d"] == RESULT else 0]), None
                        return p + (n,), peel(fs[e]["t"]), None
                if x["d"] in (OPTION, RESULT) and x.get("a"):
                    return p + ("some",), peel(x["a"][min(vi or 0, len(x["a"]) - 1) if x["d"] == RESULT else 0]), None
            return p + (str(e),), None, None
        if t[0] == "elem":
            r = go(t[1])
            if r is None:
                return None
            p, ty, _ = r
            x = prog.types[ty] if isinstance(ty, int) else {"k": "?"}
            if x["k"] == "adt" and ismap(x["d"]):
                a = x.get("a") or ()
                b = t[1]
                while b[0] == "call" and b[1] in ("iter", "as_ref", "copied", "cloned") and len(b) == 3:
                    b = b[2]
                if b[:2] == ("call", "keys") or "Set" in x["d"]:
                    return p + ("*",), peel(a[0]) if a else None, None
                if b[:2] == ("call", "values"):
                    return p + ("*",), peel(a[1]) if len(a) > 1 else None, None
                return p + ("*",), ("pair",) + tuple(a), None
            if x["k"] in ("slice", "array"):
                return p + ("*",), peel(x["t"]), None
            return p + ("*",), peel(x["a"][0]) if x.get("a") else None, None
        if t[0] == "call" and t[1] in ("map", "filter", "filter_map", "flat_map"):
            return go(t[2])
        if t[0] == "call" and t[1] in ("rev", "keys", "values", "iter", "as_ref", "deref") and len(t) == 3:
            return go(t[2])
        return None
    r = go(t)
    return r[0] if r else None


# ---- the world of the checks of an item: accessors of syntax nodes are terms
PRE = "ticc::compiler::syntax::node::"
DIAG = "RawDiagnostic"


class SynWorld(World):
    """("acc", name, node) for accessors, ("acc", "cast:Kind", node) for casts; trace gets ("diag", severity, span)"""

    def volatile(self, v):
        return v[0] != "map"

    def opaque(self, fn, args):
        return super().opaque(fn, args) or syntax_fn(fn) and fn.nargs == 1 and fn.kind == "fn"

    def unknown(self, callee, args, st, t, fn):
        c = self.prog.fns.get(callee)
        if callee not in self.closed and len(args) == 1 and (c is not None and syntax_fn(c) or short(callee) == "cast"):
            x = self.deep(st, args[0])
            n = short(callee)
            if n == "syntax":
                while x[0] == "adt" and x[1].startswith(PRE) and x[3]:
                    x = x[3][0]
            if n == "cast":
                ty = self.prog.tstr(c.locals[0]) if c is not None else self.dst_type(t, fn)
                if "node::" in ty:
                    yield st, ("acc", "cast:" + ty.split("node::")[-1].split("<")[0], x)
                    return
            elif c is not None:
                yield st, ("acc", n, x)
                return
        yield from super().unknown(callee, args, st, t, fn)

    def std(self, name, d, args, st, t, fn, depth):
        if name == "push" and len(args) == 2:
            v = self.deep(st, args[1])
            if v[0] == "adt" and v[1].endswith(DIAG):
                a = self.prog.adts[v[1]]["variants"][0]["f"]
                sev = span = None
                for f, x in zip(a, v[3]):
                    e = self.prog.adts.get(self.prog.adt_of(f["t"]))
                    if e and e["kind"] == "enum" and x[0] == "adt":
                        sev = e["variants"][x[2]]["n"]
                    if self.prog.tstr(f["t"]).endswith("Span"):
                        span = x
                st.trace.append(("diag", sev, span))
                return [(st, ("tup", ()))]
        if name == "retain" and len(args) == 2 and args[0][0] == "ptr":
            root, path = self.target(st, args[0])
            old = self.deep(st, args[0])
            out = []
            for s, v in self.apply(args[1], [("elem", old)], st, depth):
                self.store(s, root, path, ("call", "retain", old, self.deep(s, v)))
                out.append((s, ("tup", ())))
            return out
        return super().std(name, d, args, st, t, fn, depth)


def syntax_fn(fn):
    return fn.file.endswith("syntax/node.rs") or fn.crate == "ticc_syntax"
