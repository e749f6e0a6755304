"""Value flow through code that walks trees with iterators: accessors and other
unresolved calls stay as terms, an iteration is its generic element, and building
a list in a loop and collecting an iterator give the same term."""
from .absint import Interp, State, short, project, IDENT, op_place

OPTION = "core::option::Option"
RESULT = "core::result::Result"
LAZY = {"map", "zip", "rev", "enumerate", "chain", "skip", "take", "filter", "filter_map", "peekable", "flat_map", "step_by",
        "flatten"}
SAME = {"iter", "iter_mut", "into_iter", "cloned", "copied", "by_ref", "drain", "to_vec", "to_owned", "into_boxed_slice",
        "as_slice", "as_mut_slice", "values"}


PEEK = {"next", "peek", "len", "is_empty", "reserve", "shrink_to_fit", "as_mut_ptr", "last_mut", "first_mut", "get_mut", "index_mut",
        "iter_mut", "deref_mut", "as_mut", "borrow_mut", "as_mut_slice", "by_ref"}


def some(x):
    return ("adt", OPTION, 1, (x,))


NONE = ("adt", OPTION, 0, ())


class Front(Interp):
    max_depth = 12
    max_steps = 60000

    musts = False       # what is taken for granted is an event
    tries = False       # `?` on an option goes both ways
    forks = False       # a collected generic sequence is empty on a path of its own
    twice = False       # a generic sequence has up to two generic elements

    def seq_elem(self, it, st, depth=0):
        """[(state, generic element)] of an iterator"""
        it = self.deref(st, it)
        if it[0] == "call":
            n = it[1]
            if n == "map":
                out = []
                for s, e in self.seq_elem(it[2], st, depth):
                    out += list(self.apply(it[3], [e], s, depth))
                return out
            if n == "flat_map" and len(it) > 3:
                out = []
                for s, e in self.seq_elem(it[2], st, depth):
                    for s2, r in self.apply(it[3], [e], s, depth):
                        out += self.seq_elem(r, s2, depth)
                return out
            if n == "rev":
                return self.seq_elem(it[2], st, depth)
            if n in ("flatten", "filter_map") and self.concrete(it, st):
                out, work = [], [(st, it)]
                while work:
                    s, x = work.pop()
                    for s2, e, r in self.step(x, s, depth):
                        if e is not None:
                            out.append((s2, e))
                            work.append((s2.copy(), r))
                return out
            if n == "zip":
                out = []
                for s, a in self.seq_elem(it[2], st, depth):
                    for s2, b in self.seq_elem(it[3], s, depth):
                        out.append((s2, ("tup", (a, b))))
                return out
            if n == "enumerate":
                return [(s, ("tup", (("index", self.base(it[2], st)), a))) for s, a in self.seq_elem(it[2], st, depth)]
            if n == "push" and it[2] == ("vecnew",):
                return [(st, it[3])]
        if it[0] == "adt" and it[1] == OPTION and it[2] == 1:
            return [(st, it[3][0])]
        if it[0] == "arr" and it[1]:
            return [(st.copy(), x) for x in it[1]]
        return [(st, ("elem", self.deep(st, it)))]

    def adapted(self, it, st):
        """an iterator that drops or multiplies the elements of a generic sequence"""
        it = self.deref(st, it)
        if it[0] != "call" or it[1] not in LAZY and it[1] not in ("enumfrom",):
            return False
        if it[1] in ("filter", "filter_map", "flat_map", "flatten") and not self.concrete(it, st):
            return True
        return any(self.adapted(x, st) for x in it[2:4 if it[1] in ("zip", "chain") else 3])

    def elems(self, it, st, depth=0):
        """[(state, elements on this path)]; a generic sequence is empty or its generic element"""
        it = self.deref(st, it)
        if it == ("vecnew",) or it[0] == "done":
            return [(st, ())]
        if it[0] == "arr":
            return [(st, it[1])]
        if it[0] == "adt" and it[1] == OPTION:
            return [(st, it[3])]
        if it[0] == "call":
            n = it[1]
            if n == "push":
                xs = []
                while it[:2] == ("call", "push"):
                    xs.append(it[3])
                    it = it[2]
                if it[0] == "arr" or it == ("vecnew",):
                    return [(st, (it[1] if it[0] == "arr" else ()) + tuple(xs[::-1]))]
            elif n == "rev":
                return [(s, es[::-1]) for s, es in self.elems(it[2], st, depth)]
            elif n == "enumerate":
                b = self.base(it[2], st)
                one = not self.concrete(it[2], st)
                return [(s, tuple(("tup", (("index", b) if one else ("c", i), e)) for i, e in enumerate(es)))
                        for s, es in self.elems(it[2], st, depth)]
            elif n == "chain":
                if not (self.concrete(it[2], st) and self.concrete(it[3], st)):
                    return self.elems(it[2], st.copy(), depth) + self.elems(it[3], st.copy(), depth)
                return [(s2, a + b) for s, a in self.elems(it[2], st, depth) for s2, b in self.elems(it[3], s, depth)]
            elif n in ("peekable",):
                return self.elems(it[2], st, depth)
            elif n in ("map", "filter", "filter_map", "flat_map", "flatten"):
                out = []
                for s, es in self.elems(it[2], st, depth):
                    live = [(s, ())]
                    for e in es:
                        nxt = []
                        for s1, acc in live:
                            res = [(s1, e)] if n == "flatten" else self.apply(it[3], [e], s1, depth)
                            for s2, r in res:
                                if n == "map":
                                    nxt.append((s2, acc + (r,)))
                                elif n == "filter":
                                    nxt += [(s3, acc + ((e,) if b else ())) for s3, b in self.truth(s2, r)]
                                elif n == "filter_map" or n in ("flatten", "flat_map") and self.is_option(r, s2):
                                    nxt += [(s3, acc + ((x,) if vi else ())) for s3, vi, x in self.split(r, s2)]
                                else:
                                    nxt += [(s3, acc + ys) for s3, ys in self.elems(r, s2, depth)]
                        live = nxt
                    out += live
                return out
            elif n == "zip":
                out = []
                for s, a in self.elems(it[2], st, depth):
                    for s2, b in self.elems(it[3], s, depth):
                        if len(a) == len(b) or not (self.concrete(it[2], st) or self.concrete(it[3], st)):
                            out.append((s2, tuple(("tup", p) for p in zip(a, b))))
                        else:
                            out.append((s2, tuple(("tup", p) for p in zip(a, b))))
                return out
        w = self.deep(st, it)
        s0 = st.copy()
        s0.trace.append(("noiter", w))
        s1 = st.copy()
        s1.trace.append(("iter", w))
        if self.twice:
            s1.trace.append(("iter", ("call", "more", w)))
        return [(s0, ()), (s1, (("elem", w), ("elem", ("call", "more", w))) if self.twice else (("elem", w),))]

    def is_option(self, v, st):
        v = self.deref(st, v)
        return v[0] == "adt" and v[1] == OPTION or isinstance(st.facts.get(("call", "discr", v)), int)

    def concrete(self, it, st):
        """a sequence of known length, possibly adapted"""
        it = self.deref(st, it)
        if it[0] == "arr":
            return True
        return it[0] == "call" and it[1] in ("map", "flatten", "filter", "rev", "enumerate", "chain", "enumfrom", "filter_map", "zip") and \
            self.concrete(it[2], st) and (it[1] not in ("chain", "zip") or self.concrete(it[3], st))

    def step(self, it, st, depth):
        """[(state, next element or None, rest)] of a sequence of known length"""
        it = self.deref(st, it)
        if it[0] == "arr":
            return [(st, it[1][0], ("arr", it[1][1:]))] if it[1] else [(st, None, it)]
        n, x = it[1], it[2]
        out = []
        if n == "rev":
            x = self.deref(st, x)
            if x[0] == "arr":
                return [(st, x[1][-1], ("call", "rev", ("arr", x[1][:-1])))] if x[1] else [(st, None, it)]
            acc = [(st, ())]
            done = []
            while acc:
                s, xs = acc.pop()
                for s2, e, r in self.step(x if not xs else xs[-1][1], s, depth):
                    if e is None:
                        done.append((s2, tuple(y for y, _ in xs)))
                    else:
                        acc.append((s2, xs + ((e, r),)))
            for s, xs in done:
                out += self.step(("call", "rev", ("arr", xs)), s, depth)
            return out
        if n == "enumerate":
            it = ("call", "enumfrom", x, 0)
            n = "enumfrom"
        for s, e, r in self.step(x, st, depth):
            if n == "zip" and e is not None:
                for s2, e2, r2 in self.step(it[3], s, depth):
                    out.append((s2, None, it) if e2 is None else (s2, ("tup", (e, e2)), ("call", "zip", r, r2)))
            elif e is None:
                if n == "chain":
                    out += self.step(it[3], s, depth)
                else:
                    out.append((s, None, it))
            elif n == "chain":
                out.append((s, e, ("call", "chain", r, it[3])))
            elif n == "enumfrom":
                out.append((s, ("tup", (("c", it[3]), e)), ("call", "enumfrom", r, it[3] + 1)))
            elif n == "map":
                out += [(s2, y, ("call", "map", r, it[3])) for s2, y in self.apply(it[3], [e], s, depth)]
            elif n in ("flatten", "filter_map"):
                rest = ("call", n, r) + it[3:]
                vals = [(s, e)] if n == "flatten" else list(self.apply(it[3], [e], s, depth))
                for s1, v in vals:
                    for s2, vi, y in self.split(v, s1):
                        out += [(s2, y, rest)] if vi == 1 else self.step(rest, s2, depth)
            elif n == "filter":
                rest = ("call", n, r, it[3])
                for s2, v in self.apply(it[3], [e], s, depth):
                    for s3, b in self.truth(s2, v):
                        out += [(s3, e, rest)] if b else self.step(rest, s3, depth)
        return out

    def base(self, it, st):
        return self.deep(st, it)

    def iter_len(self, it, st):
        """0 / 1 when known"""
        it = self.deref(st, it)
        if it == ("vecnew",) or it == ("arr", ()) or it == NONE:
            return 0
        if it[0] == "call" and it[1] in LAZY:
            return self.iter_len(it[2], st)
        return None

    def unknown(self, callee, args, st, t, fn):
        n = short(callee)
        if n in LAZY and len(args) >= 1 and callee and ("iter" in callee or "Iterator" in callee):
            yield st, ("call", n) + tuple(args)
            return
        if callee not in self.prog.fns and n not in PEEK:
            old = [self.deep(st, a) for a in args]
            for a, v in zip(args, old):
                if a[0] == "ptr" and self.volatile(v) and self.mutable(a, args, t, fn):
                    root, path = self.target(st, a)
                    self.store(st, root, path, ("call", "after " + n) + tuple(old))
                    st.trace.append(("call", callee, tuple(old), fn.id if fn else None))
                    yield st, self.simplify(("call", n) + tuple(old), st)
                    return
        yield from super().unknown(callee, args, st, t, fn)

    def volatile(self, v):
        """the value is followed through changes by functions that are not entered"""
        return v[0] in ("vecnew", "arr") or v[:2] == ("call", "push")

    def any_number(self, v, st):
        """all elements of the list stand for those of sequences that may be empty on this path"""
        xs = items(v)
        if not xs:
            return False
        going = {e[1] for e in st.trace if e[0] == "iter"}

        def seqs(t):
            if isinstance(t, tuple):
                if len(t) == 2 and t[0] == "elem":
                    yield t[1]
                for x in t:
                    yield from seqs(x)
        return all(any(q not in going and q[:2] != ("call", "more") for q in seqs(self.deep(st, x))) for x in xs)

    def fold(self, t, st):
        _, op, a, b = t
        if b[:2] == ("call", "len") and a[0] == "c":
            a, b = b, a
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        if a[:2] == ("call", "len") and a[2][:2] == ("call", "push") and b[0] == "c" and not self.any_number(a[2], st):
            # at least one element
            r = {("Gt", 0): 1, ("Ge", 1): 1, ("Ne", 0): 1, ("Eq", 0): 0, ("Lt", 1): 0, ("Le", 0): 0}.get((op, b[1]))
            if r is not None:
                return ("c", r)
        return super().fold(t, st)

    def mutable(self, a, args, t, fn):
        """the operand is a mutable reference"""
        if t is None or fn is None or len(t["args"]) != len(args):
            return False
        p = op_place(t["args"][args.index(a)])
        if p is None or len(p) != 1:
            return False
        ty = self.prog.types[fn.locals[p[0]]]
        return ty["k"] == "ref" and ty["m"]

    def std(self, name, d, args, st, t, fn, depth):
        own = d.rsplit("::", 1)[0]
        itlike = "iter" in d or "slice" in own or "vec" in own or "Iterator" in d or "collections" in own or \
            "IntoIterator" in d
        if name in ("map", "and_then", "filter", "map_err", "ok_or", "unwrap_or_else", "unwrap_or", "map_or",
                    "or_else", "ok_or_else", "is_some_and", "or", "filter", "is_none_or", "flatten", "and", "ok", "err",
                    "map_or_else") and ("option" in own or "result" in own):
            r = self.option(name, args, st, t, depth)
            if r is not None:
                return r
        if name in ("unwrap", "expect") and args:
            v = self.deref(st, args[0])
            if v[0] != "adt":
                w = self.deep(st, v)
                f = st.facts.get(("call", "discr", w))
                vi = 1 if "option" in own else 0
                if isinstance(f, int) and f != vi:
                    self.diverged.append((st, fn, -1))
                    return []
                if self.musts and f is None:
                    st.trace.append(("must", w))
                st.facts[("call", "discr", w)] = vi
                return [(st, project(w, (("v", vi), 0)))]
        if name in ("is_some", "is_none", "is_ok", "is_err") and args:
            name = {"is_ok": "is_none", "is_err": "is_some"}.get(name, name)
            v = self.deref(st, args[0])
            if v[0] == "adt":
                return [(st, ("c", int((v[2] == 1) == (name == "is_some"))))]
            w = self.deep(st, v)
            out = []
            for vi in (1, 0):
                f = st.facts.get(("call", "discr", w))
                if isinstance(f, int) and f != vi:
                    continue
                s2 = st.copy()
                s2.facts[("call", "discr", w)] = vi
                out.append((s2, ("c", int((vi == 1) == (name == "is_some")))))
            return out
        if name == "next" and len(args) == 1:
            it = args[0]
            root = None
            if it[0] == "ptr":
                v = self.load(st, it[1], it[2])
                hops = 0
                while v[0] == "ptr" and hops < 9:
                    it, v, hops = v, self.load(st, v[1], v[2]), hops + 1
            v = self.deref(st, args[0])
            if v[0] == "done":
                s0 = st.copy()
                s0.trace.append(("full", v[1]))
                return [(s0, NONE)]
            if v[0] == "adt" and "Range" in v[1] and all(x[0] == "c" for x in v[3]):
                lo, hi = v[3][0][1], v[3][1][1]
                if lo >= hi:
                    return [(st, NONE)]
                self.store(st, it[1], it[2], ("adt", v[1], v[2], (("c", lo + 1), ("c", hi))))
                return [(st, some(("c", lo)))]
            out = []
            if self.concrete(v, st) and it[0] == "ptr":
                for s, e, r in self.step(v, st, depth + 1):
                    if s is st:
                        s = st.copy()
                    self.store(s, it[1], it[2], r)
                    s.credit += 1
                    if e is None:
                        s.trace.append(("full", None))
                    out.append((s, NONE if e is None else some(e)))
                return out
            if self.adapted(v, st) and it[0] == "ptr":
                for s, es in self.elems(v, st.copy(), depth + 1):
                    s = s.copy()
                    self.store(s, it[1], it[2], ("arr", es[1:]))
                    s.credit += 1
                    out.append((s, some(es[0]) if es else NONE))
                return out
            n = self.iter_len(v, st)
            more = v[:2] == ("call", "more")
            if n != 0:
                for s, e in self.seq_elem(v, st.copy(), depth + 1):
                    if it[0] == "ptr":
                        w = self.deep(s, v)
                        self.store(s, it[1], it[2], ("done", w[2]) if more else ("call", "more", w) if self.twice else ("done", w))
                    s.trace.append(("iter", self.deep(s, v)))
                    out.append((s, some(e)))
            s0 = st.copy()
            if it[0] == "ptr":
                self.store(s0, it[1], it[2], ("done", ("vecnew",)))
            s0.trace.append(("full", self.deep(s0, v[2])) if more else ("noiter", self.deep(s0, v)))
            out.append((s0, NONE))
            return out
        if name in SAME and itlike and args:
            v = args[0]
            if name in ("iter_mut", "by_ref", "as_mut_slice", "drain") and v[0] == "ptr":
                return [(st, v)]
            return [(st, self.deref(st, v))]
        if name in ("rev",) and itlike and args:
            v = self.deref(st, args[0])
            return [(st, ("call", "rev", v))]
        if name in ("collect", "from_iter") and args:
            v = self.deref(st, args[0])
            if self.iter_len(v, st) == 0:
                return [(st, ("vecnew",))]
            if self.adapted(v, st) or self.concrete(v, st) or self.forks and self.base(v, st)[:2] != ("call", "push"):
                out = []
                for s, es in self.elems(v, st, depth + 1):
                    if not self.concrete(v, st):
                        s.trace.append(("full", self.deep(s, self.base(v, s))))
                    out.append((s, listof([self.deep(s, e) for e in es])))
                return out
            return [(s, ("call", "push", ("vecnew",), self.deep(s, e))) for s, e in self.seq_elem(v, st, depth + 1)]
        if name == "extend" and len(args) == 2 and args[0][0] == "ptr":
            v = self.deref(st, args[1])
            old = self.deref(st, args[0])
            out = []
            if self.iter_len(v, st) == 0:
                return [(st, ("tup", ()))]
            if self.adapted(v, st) or self.concrete(v, st):
                for s, es in self.elems(v, st, depth + 1):
                    root, path = self.target(s, args[0])
                    new = self.deref(s, args[0])
                    for e in es:
                        new = ("call", "push", new, self.deep(s, e))
                    self.store(s, root, path, new)
                    out.append((s, ("tup", ())))
                return out
            for s, e in self.seq_elem(v, st, depth + 1):
                root, path = self.target(s, args[0])
                self.store(s, root, path, ("call", "push", old, self.deep(s, e)))
                out.append((s, ("tup", ())))
            return out
        if name == "fold" and len(args) == 3 and itlike:
            it = self.deref(st, args[0])
            if self.adapted(it, st) or self.concrete(it, st):
                out = []
                for s, es in self.elems(it, st, depth + 1):
                    live = [(s, args[1])]
                    for e in es:
                        live = [y for s1, acc in live for y in self.apply(args[2], [acc, e], s1, depth)]
                    out += live
                return out
            if self.iter_len(it, st) == 0:
                return [(st, args[1])]
            out = []
            for s, es in self.elems(it, st, depth + 1):
                live = [(s, args[1])]
                for e in es:
                    live = [y for s1, acc in live for y in self.apply(args[2], [acc, e], s1, depth)]
                for s1, acc in live:
                    if es:
                        s1.trace.append(("full", self.deep(s1, it)))
                    out.append((s1, acc))
            return out
        if name in ("find", "any", "all", "position") and len(args) == 2 and itlike:
            it = self.deref(st, args[0])
            miss = {"find": NONE, "position": NONE, "any": ("c", 0), "all": ("c", 1)}[name]
            out = [(st.copy(), miss)]
            if it[0] == "arr":
                return self.search(name, args[1], it[1], miss, st, depth)
            out = []
            for s, es in self.elems(it, st, depth + 1):
                for s2, r in self.search(name, args[1], es, miss, s, depth):
                    if r == miss:
                        s2.trace.append(("full", self.deep(s2, self.base(it, s2))))
                    if name == "position" and r[0] == "adt" and r[2] == 1 and not self.adapted(it, st) and not self.concrete(it, st):
                        r = some(("index", self.base(it, s2)))
                    out.append((s2, r))
            return out
        if d.startswith("core::mem::") and name in ("swap", "replace") and len(args) == 2 and args[0][0] == "ptr":
            a, b = self.target(st, args[0]), args[1]
            old = self.deep(st, args[0])
            self.store(st, a[0], a[1], self.deep(st, b))
            if name == "swap" and b[0] == "ptr":
                root, path = self.target(st, b)
                self.store(st, root, path, old)
            return [(st, old if name == "replace" else ("tup", ()))]
        if name == "for_each" and len(args) == 2:
            out = []
            for s, es in self.elems(self.deref(st, args[0]), st, depth + 1):
                live = [s]
                for e in es:
                    live = [s2 for s1 in live for s2, _ in self.apply(args[1], [e], s1, depth)]
                out += [(s2, ("tup", ())) for s2 in live]
            return out
        if name == "default" and not args and self.dst_type(t, fn).startswith(OPTION):
            return [(st, NONE)]
        if name in ("new", "with_capacity", "default") and "vec" in own and "Vec" in d:
            return [(st, ("vecnew",))]
        if name == "push" and len(args) == 2 and args[0][0] == "ptr" and "vec" in own:
            root, path = self.target(st, args[0])
            old = self.load(st, root, path)
            if old[0] in ("call", "vecnew", "arr"):
                self.store(st, root, path, ("call", "push", self.deep(st, old), self.deep(st, args[1])))
                return [(st, ("tup", ()))]
        if name == "new_uninit" and not args:
            self.nframe += 1
            return [(st, ("ptr", ("box", self.nframe), ()))]
        if name in ("from", "into_vec", "box_new", "box_assume_init_into_vec_unsafe", "into_boxed_slice") and args:
            v = self.deref(st, args[0])
            while v[0] == "upd":
                v = v[3]
            if v[0] == "arr":
                return [(st, listof(v[1]))]
        if name in ("len", "is_empty") and args:
            v = self.deref(st, args[0])
            if v == ("vecnew",) or v[0] == "arr":
                n = len(v[1]) if v[0] == "arr" else 0
                return [(st, ("c", n if name == "len" else int(n == 0)))]
            if v[:2] == ("call", "push") and name == "is_empty" and not self.any_number(v, st):
                return [(st, ("c", 0))]
        if name == "unwrap_or_default" and args and "option" in own:
            s = self.dst_type(t, fn)
            if "::Vec<" in s or s.startswith("Vec<"):
                return [(s2, ("vecnew",) if vi == 0 else x) for s2, vi, x in self.split(args[0], st)]
            if s in ("usize", "u64", "u32", "i32", "i64", "bool"):
                return [(s2, ("c", 0) if vi == 0 else x) for s2, vi, x in self.split(args[0], st)]
        if name in ("index", "get_unchecked") and len(args) == 2 and itlike:
            i = self.deep(st, args[1])
            if i[0] in ("c", "index"):
                if args[0][0] == "ptr":
                    root, path = self.target(st, args[0])
                    return [(st, ("ptr", root, path + (("i", i),)))]
                return [(st, project(args[0], (("i", i),)))]
        if name in ("once", "from_ref") and args:
            return [(st, ("arr", (args[0],)))]
        return super().std(name, d, args, st, t, fn, depth)

    def search(self, name, f, xs, miss, st, depth):
        """find/any/all/position over a sequence of known length"""
        out, live = [], [st]
        for i, x in enumerate(xs):
            nxt = []
            for s in live:
                for s2, r in self.apply(f, [x], s, depth):
                    for s3, b in self.truth(s2, r):
                        if b == (name != "all"):
                            out.append((s3, {"find": some(x), "position": some(("c", i)), "any": ("c", 1), "all": ("c", 0)}[name]))
                        else:
                            nxt.append(s3)
            live = nxt
        return out + [(s, miss) for s in live]

    def truth(self, st, v):
        """[(state, bool)] of a condition"""
        v = self.simplify(self.deep(st, v), st)
        if v[0] == "c":
            return [(st, bool(v[1]))]
        if v[:2] == ("un", "Not"):
            return [(s, not b) for s, b in self.truth(st, v[2])]
        f = st.facts.get(v)
        if isinstance(f, int):
            return [(st, bool(f))]
        out = []
        for b in (1, 0):
            s2 = st.copy()
            s2.facts[v] = b
            out.append((s2, bool(b)))
        return out

    def dst_type(self, t, fn):
        if fn is None or len(t["dst"]) != 1:
            return ""
        return self.prog.tstr(fn.locals[t["dst"][0]])

    def target(self, st, p):
        root, path = p[1], p[2]
        for _ in range(9):
            v = self.load(st, root, path)
            if v[0] != "ptr":
                break
            root, path = v[1], v[2]
        return root, path

    def split(self, v, st):
        """[(state, variant, payload)] of an Option/Result value"""
        v = self.deref(st, v)
        if v[0] == "adt":
            return [(st, v[2], v[3][0] if v[3] else None)]
        w = self.deep(st, v)
        out = []
        f = st.facts.get(("call", "discr", w))
        for vi in (0, 1):
            if isinstance(f, int) and f != vi:
                continue
            s2 = st.copy()
            s2.facts[("call", "discr", w)] = vi
            out.append((s2, vi, project(w, (("v", vi), 0))))
        return out

    def try_unknown(self, v, cf, st, t=None):
        if self.tries and t is not None and "core::option::Option" in (t["f"].get("r") or ""):
            return [(s, ("adt", cf, 0, (x,)) if vi else ("adt", cf, 1, (NONE,))) for s, vi, x in self.split(v, st)]
        return super().try_unknown(v, cf, st, t)

    def option(self, name, args, st, t, depth):
        opt = None
        v = self.deref(st, args[0])
        if "option" not in (t["f"].get("d") or ""):
            return self.result(name, v, args, st, t, depth)
        out = []
        for s, vi, x in self.split(v, st):
            if name == "map":
                out += [(s, NONE)] if vi == 0 else [(s2, some(y)) for s2, y in self.apply(args[1], [x], s, depth)]
            elif name == "and_then":
                out += [(s, NONE)] if vi == 0 else list(self.apply(args[1], [x], s, depth))
            elif name == "unwrap_or":
                out.append((s, args[1] if vi == 0 else x))
            elif name == "unwrap_or_else":
                out += list(self.apply(args[1], [], s, depth)) if vi == 0 else [(s, x)]
            elif name == "map_or":
                out += [(s, args[1])] if vi == 0 else list(self.apply(args[2], [x], s, depth))
            elif name == "map_or_else":
                out += list(self.apply(args[1], [], s, depth)) if vi == 0 else list(self.apply(args[2], [x], s, depth))
            elif name == "or_else":
                out += list(self.apply(args[1], [], s, depth)) if vi == 0 else [(s, some(x))]
            elif name == "or":
                out.append((s, args[1] if vi == 0 else some(x)))
            elif name == "and":
                out.append((s, NONE if vi == 0 else args[1]))
            elif name == "flatten":
                out.append((s, NONE if vi == 0 else x))
            elif name == "ok_or":
                out.append((s, ("adt", RESULT, 1, (args[1],)) if vi == 0 else ("adt", RESULT, 0, (x,))))
            elif name == "ok_or_else":
                if vi == 0:
                    out += [(s2, ("adt", RESULT, 1, (y,))) for s2, y in self.apply(args[1], [], s, depth)]
                else:
                    out.append((s, ("adt", RESULT, 0, (x,))))
            elif name in ("filter", "is_some_and", "is_none_or"):
                if vi == 0:
                    out.append((s, {"filter": NONE, "is_some_and": ("c", 0), "is_none_or": ("c", 1)}[name]))
                    continue
                for s2, r in self.apply(args[1], [x], s, depth):
                    if name != "filter":
                        out.append((s2, r))
                        continue
                    out += [(s3, some(x) if b else NONE) for s3, b in self.truth(s2, r)]
            else:
                return None
        return out

    def result(self, name, v, args, st, t, depth):
        out = []
        for s, vi, x in self.split(v, st):
            w = ("adt", RESULT, vi, (x,))
            if name == "map":
                out += [(s, w)] if vi else [(s2, ("adt", RESULT, 0, (y,))) for s2, y in self.apply(args[1], [x], s, depth)]
            elif name == "map_err":
                out += [(s, w)] if not vi else [(s2, ("adt", RESULT, 1, (y,))) for s2, y in self.apply(args[1], [x], s, depth)]
            elif name == "and_then":
                out += [(s, w)] if vi else list(self.apply(args[1], [x], s, depth))
            elif name == "or_else":
                out += [(s, w)] if not vi else list(self.apply(args[1], [x], s, depth))
            elif name in ("ok", "err"):
                out.append((s, some(x) if vi == (name == "err") else NONE))
            elif name == "unwrap_or":
                out.append((s, args[1] if vi else x))
            elif name == "unwrap_or_else":
                out += list(self.apply(args[1], [x], s, depth)) if vi else [(s, x)]
            else:
                return None
        return out


def listof(xs):
    v = ("vecnew",)
    for x in xs:
        v = ("call", "push", v, x)
    return v


# ---- terms over a syntax node
def part(t, root):
    """accessor path of a node term below root: ('cases', 'body'); None if it is not one"""
    path = []
    while t != root:
        if t[0] == "proj" and t[2] in (0, ("v", 1), ("v", 0)):
            t = t[1]
        elif t[0] == "elem":
            t = t[1]
        elif t[0] == "call" and t[1] in ("flat_map", "rev") and len(t) >= 3:
            clo = t[3] if len(t) > 3 else None
            if clo is not None:
                path.append(("via",))
            t = t[2]
        elif t[0] == "acc":
            path.append(t[1])
            t = t[2]
        else:
            return None
    return tuple(p for p in reversed(path) if p != ("via",))


def subst_terms(t, f):
    """bottom-up rewriting"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(subst_terms(x, f) if isinstance(x, tuple) else x for x in t)
    return f(t) if t and isinstance(t[0], str) else t


def show(prog, t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if not isinstance(k, str):
        return " ".join(show(prog, x) for x in t)
    if k == "adt":
        a = prog.adts.get(t[1])
        n = a["variants"][t[2]]["n"] if a else t[1].split("::")[-1]
        return n + ("(" + ", ".join(show(prog, x) for x in t[3]) + ")" if t[3] else "")
    if k in ("call", "acc", "rec"):
        return "%s(%s)" % (t[1], ", ".join(show(prog, x) for x in t[2:]))
    if k == "proj":
        return show(prog, t[1]) + "." + (str(t[2]) if not isinstance(t[2], tuple) else ":".join(map(str, t[2])))
    if k in ("sym", "c", "s"):
        return str(t[1])
    if k in ("tup", "arr"):
        return "(" + ", ".join(show(prog, x) for x in t[1]) + ")"
    if k == "elem":
        return "each " + show(prog, t[1])
    return k + "<" + " ".join(show(prog, x) for x in t[1:]) + ">"


def items(t):
    """elements of a list term, None if it is not fully known"""
    out = []
    while t[0] == "call" and t[1] == "push":
        out.append(t[3])
        t = t[2]
    if t == ("vecnew",):
        return out[::-1]
    if t[0] == "arr":
        return list(t[1]) + out[::-1]
    return None


class V:
    """pattern variable"""

    def __init__(self, name, pred=None):
        self.name, self.pred = name, pred


class P:
    """an enum variant / struct with these fields"""

    def __init__(self, name, *fields):
        self.name, self.fields = name, fields


class L:
    """a list with exactly these elements"""

    def __init__(self, *xs):
        self.xs = xs


ANY = V(None)


def match(prog, pat, t, env):
    if isinstance(pat, V):
        if pat.pred and not pat.pred(t):
            return False
        if pat.name is None:
            return True
        if pat.name in env:
            return env[pat.name] == t
        env[pat.name] = t
        return True
    if isinstance(pat, P):
        if t[0] != "adt":
            return False
        a = prog.adts.get(t[1])
        if a is None or a["variants"][t[2]]["n"] != pat.name or len(t[3]) != len(pat.fields):
            return False
        return all(match(prog, p, x, env) for p, x in zip(pat.fields, t[3]))
    if isinstance(pat, L):
        xs = items(t)
        return xs is not None and len(xs) == len(pat.xs) and all(match(prog, p, x, env) for p, x in zip(pat.xs, xs))
    return pat == t
