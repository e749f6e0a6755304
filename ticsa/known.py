"""Value flow over lists of known length: every list is its elements, and changes of it are followed through the
pointers into it. Numbers are kept as sums of symbols."""
from .absint import short, project, setpath
from .front import OPTION, NONE, some, RESULT
from .props.syn import Tree


def lin(c=0, **syms):
    return norm(c, {("sym", k): v for k, v in syms.items()})


def norm(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ("c", c)
    if c == 0 and len(d) == 1 and list(d.values()) == [1]:
        return list(d)[0]
    return ("lin", c, tuple(sorted(d.items(), key=str)))


def parts(t):
    if t[0] == "c":
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def add(a, b, sign=1):
    c, d = parts(a)
    c2, d2 = parts(b)
    d = dict(d)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + sign * v
    return norm(c + sign * c2, d)


class Known(Tree):
    loop_bound = 200
    max_steps = 400000
    max_depth = 40
    recursion = 20

    def volatile(self, v):
        return v[0] == "arr"

    def simplify(self, t, st):
        if t[0] == "bin" and t[1] in ("Add", "Sub") and self.number(t[2]) and self.number(t[3]):
            return add(t[2], t[3], 1 if t[1] == "Add" else -1)
        if t[0] == "un" and t[1].startswith("as "):
            return t[2]
        if t[0] == "un" and t[1] == "PtrMetadata" and self.deref(st, t[2])[0] == "arr":
            return ("c", len(self.deref(st, t[2])[1]))
        return t

    def number(self, t):
        return t[0] in ("c", "lin", "sym")

    def load(self, st, root, path):
        v = super().load(st, root, ())
        for i, e in enumerate(path):
            while v[0] == "ptr":
                v = self.load(st, v[1], v[2])
            v = project(v, (e,))
        return v

    def slot(self, st, a):
        """(root, path, list) of a pointer to a list"""
        if a[0] != "ptr":
            return None
        root, path = self.target(st, a)
        v = self.load(st, root, path)
        return (root, path, v) if v[0] == "arr" else None

    def repeat(self, x, n):
        return ("arr", (x,) * n) if isinstance(n, int) and n <= 64 else super().repeat(x, n)

    def std(self, name, d, args, st, t, fn, depth):
        own = d.rsplit("::", 1)[0]
        U = ("tup", ())
        if name in ("new", "with_capacity", "default") and ("vec" in own and "Vec" in d or name == "default" and self.vec_dst(t, fn)):
            return [(st, ("arr", ()))]
        if name == "take" and d.startswith("core::mem::") and args[0][0] == "ptr":
            root, path = self.target(st, args[0])
            old = self.load(st, root, path)
            if old[0] == "arr":
                self.store(st, root, path, ("arr", ()))
                return [(st, old)]
        s = self.slot(st, args[0]) if args else None
        if s:
            root, path, v = s
            xs = v[1]
            r = self.method_of_list(name, d, args, st, root, path, xs)
            if r is not None:
                return r
        elif args and name in ("collect", "from_iter") and self.concrete(args[0], st):
            return [(s2, ("arr", tuple(es))) for s2, es in self.elems(args[0], st, depth + 1)]
        elif args and name in ("into_vec", "into_boxed_slice", "box_assume_init_into_vec_unsafe", "from") and self.deref(st, args[0])[0] == "arr":
            return [(st, self.deref(st, args[0]))]
        if args and self.concrete(args[0], st):
            r = self.of_sequence(name, d, args, st, t, fn, depth)
            if r is not None:
                return r
        if name in ("index", "get") and len(args) == 2 and self.deref(st, args[0])[0] == "arr":
            xs = self.deref(st, args[0])[1]
            i = self.deep(st, args[1])
            if i[0] == "c":
                if name == "get":
                    return [(st, some(xs[i[1]]) if i[1] < len(xs) else NONE)]
                if i[1] < len(xs):
                    return [(st, xs[i[1]])]
                self.diverged.append((st, fn, -1))
                return []
            b = self.bounds(i, len(xs))
            if b:
                return [(st, ("arr", xs[b[0]:b[1]]))]
        if name in ("last", "first") and args and self.deref(st, args[0])[0] == "arr":
            xs = self.deref(st, args[0])[1]
            return [(st, some(xs[-1 if name == "last" else 0]) if xs else NONE)]
        if name in ("copied", "cloned") and "option" in own:
            return [(s2, some(self.deref(s2, x)) if vi else NONE) for s2, vi, x in self.split(args[0], st)]
        if name == "peekable":
            return [(st, args[0])]
        if name == "rfold" and len(args) == 3 and self.concrete(args[0], st):
            out = []
            for s2, es in self.elems(args[0], st, depth + 1):
                live = [(s2, args[1])]
                for e in es[::-1]:
                    live = [y for s3, acc in live for y in self.apply(args[2], [acc, e], s3, depth)]
                out += live
            return out
        if name == "take" and "option" in own and args[0][0] == "ptr":
            root, path = self.target(st, args[0])
            old = self.load(st, root, path)
            if old[0] == "adt":
                self.store(st, root, path, NONE)
                return [(st, old)]
        return super().std(name, d, args, st, t, fn, depth)

    def of_sequence(self, name, d, args, st, t, fn, depth):
        """what is taken from a sequence of known length as a whole"""
        if "iter" not in d.lower():
            return None
        if name in ("rfind", "rposition", "find_map", "unzip", "partition", "last", "nth", "count", "take_while", "map_while",
                    "skip_while", "sum", "flat_map", "skip", "take"):
            n = self.deep(st, args[1]) if name in ("skip", "take", "nth") else ("c", 0)
            if n[0] != "c":
                return None
            out = []
            for s, es in self.elems(args[0], st, depth + 1):
                es = tuple(es)
                if name in ("rfind", "rposition"):
                    for s2, r in self.search("find" if name == "rfind" else "position", args[1], es[::-1], NONE, s, depth):
                        if name == "rposition" and r != NONE:
                            r = some(("c", len(es) - 1 - r[3][0][1]))
                        out.append((s2, r))
                elif name in ("skip", "take"):
                    out.append((s, ("arr", es[n[1]:] if name == "skip" else es[:n[1]])))
                elif name in ("last", "nth"):
                    i = len(es) - 1 if name == "last" else n[1]
                    out.append((s, some(es[i]) if 0 <= i < len(es) else NONE))
                elif name == "count":
                    out.append((s, ("c", len(es))))
                elif name == "sum":
                    v = ("c", 0)
                    for e in es:
                        e = self.deref(s, e)
                        if not self.number(e):
                            return None
                        v = add(v, e)
                    out.append((s, v))
                elif name == "unzip":
                    ps = [self.deref(s, e) for e in es]
                    if any(p[0] != "tup" for p in ps):
                        return None
                    out.append((s, ("tup", tuple(("arr", tuple(p[1][k] for p in ps)) for k in (0, 1)))))
                else:
                    r = self.chosen(name, args[1], es, s, depth)
                    if r is None:
                        return None
                    out += r
            return out
        return None

    def chosen(self, name, f, es, st, depth):
        """find_map, partition, take_while, map_while, skip_while, flat_map"""
        live, out = [(st, ((), ()))], []
        for i, e in enumerate(es):
            nxt = []
            for s, acc in live:
                for s2, r in self.apply(f, [e], s, depth):
                    if name in ("find_map", "map_while"):
                        for s3, vi, x in self.split(r, s2):
                            if name == "find_map":
                                (out.append((s3, some(x))) if vi else nxt.append((s3, acc)))
                            else:
                                (nxt.append((s3, (acc[0] + (x,), ()))) if vi else out.append((s3, ("arr", acc[0]))))
                    elif name == "flat_map":
                        if not self.concrete(r, s2):
                            return None
                        nxt += [(s3, (acc[0] + tuple(xs), ())) for s3, xs in self.elems(r, s2, depth)]
                    else:
                        for s3, b in self.truth(s2, r):
                            if name == "partition":
                                nxt.append((s3, (acc[0] + (e,), acc[1]) if b else (acc[0], acc[1] + (e,))))
                            elif name == "take_while":
                                (nxt.append((s3, (acc[0] + (e,), ()))) if b else out.append((s3, ("arr", acc[0]))))
                            else:
                                (nxt.append((s3, acc)) if b else out.append((s3, ("arr", es[i:]))))
            live = nxt
        end = {"find_map": lambda a: NONE, "skip_while": lambda a: ("arr", ()),
               "partition": lambda a: ("tup", (("arr", a[0]), ("arr", a[1])))}.get(name, lambda a: ("arr", a[0]))
        return out + [(s, end(a)) for s, a in live]

    def vec_dst(self, t, fn):
        s = self.dst_type(t, fn)
        return s.startswith("alloc::vec::Vec<")

    def method_of_list(self, name, d, args, st, root, path, xs):
        U = ("tup", ())

        def put(ys):
            self.store(st, root, path, ("arr", tuple(ys)))

        def at(i):
            return ("ptr", root, path + (i,))
        mut = lambda n: name.endswith("_mut")
        if name == "push":
            put(xs + (args[1],))
            return [(st, U)]
        if name in ("pop", "pop_front", "next", "next_back"):
            if not xs:
                return [(st, NONE)]
            first = name in ("pop_front", "next")
            put(xs[1:] if first else xs[:-1])
            return [(st, some(xs[0] if first else xs[-1]))]
        if name == "peek" or name in ("first", "last", "first_mut", "last_mut", "peek_mut"):
            i = len(xs) - 1 if name.startswith("last") else 0
            return [(st, some(at(i)) if xs else NONE)]
        if name in ("clear", "drain", "split_off", "truncate"):
            if name == "clear":
                put(())
                return [(st, U)]
            r = self.deep(st, args[1])
            if name == "drain":
                b = self.bounds(r, len(xs))
                if b is None:
                    return None
                put(xs[:b[0]] + xs[b[1]:])
                return [(st, ("arr", xs[b[0]:b[1]]))]
            if r[0] == "c":
                put(xs[:r[1]])
                return [(st, ("arr", xs[r[1]:]) if name == "split_off" else U)]
            return None
        if name in ("get", "get_mut", "index", "index_mut", "swap_remove", "remove", "insert"):
            i = self.deep(st, args[1])
            if i[0] != "c":
                b = self.bounds(i, len(xs)) if name == "index" else None
                return [(st, ("arr", xs[b[0]:b[1]]))] if b else None
            i = i[1]
            if name == "insert":
                put(xs[:i] + (args[2],) + xs[i:])
                return [(st, U)]
            if name.startswith("get"):
                return [(st, some(at(i)) if i < len(xs) else NONE)]
            if i >= len(xs):
                self.diverged.append((st, None, -1))
                return []
            if name == "remove":
                put(xs[:i] + xs[i + 1:])
                return [(st, xs[i])]
            return [(st, at(i))]
        if name in ("len", "is_empty"):
            return [(st, ("c", len(xs) if name == "len" else int(not xs)))]
        if name in ("iter_mut",):
            return [(st, ("arr", tuple(at(i) for i in range(len(xs)))))]
        if name in ("append", "extend", "extend_from_slice"):
            w = self.deref(st, args[1])
            if self.concrete(w, st):
                out = []
                for s2, es in self.elems(w, st):
                    self.store(s2, root, path, ("arr", xs + tuple(es)))
                    if name == "append":
                        r2, p2 = self.target(s2, args[1])
                        self.store(s2, r2, p2, ("arr", ()))
                    out.append((s2, U))
                return out
            return None
        if name == "reverse":
            put(xs[::-1])
            return [(st, U)]
        if name in ("reserve", "shrink_to_fit"):
            return [(st, U)]
        return None

    def bounds(self, r, n):
        if r[0] != "adt":
            return (0, n) if "RangeFull" in str(r) else None
        k = r[1].split("::")[-1]
        xs = [x[1] if x[0] == "c" else None for x in r[3]]
        if None in xs:
            return None
        return {"RangeFull": lambda: (0, n), "RangeFrom": lambda: (xs[0], n), "RangeTo": lambda: (0, xs[0]),
                "Range": lambda: (xs[0], xs[1])}.get(k, lambda: None)()
