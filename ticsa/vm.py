"""Value flow of machines with a memory of their own: objects laid out in words by unsafe code. The memory is a run of
cells, each some bytes wide; a pointer into it is where it begins, where it ends, and what it is a view of."""
from .absint import State, wrapped
from .front import NONE, some
from .machine import Machine
from .mir import Anchor
from .text import known

WIDTH = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8}


class Untold(Anchor):
    """how long a text is, is not known"""


def ram(lo, hi, kind):
    return ("ptr", ("ram", lo, hi, kind), ())


def in_ram(v):
    return v[0] == "ptr" and v[1][0] == "ram"


class Vm(Machine):
    loop_bound = 20000
    max_steps = 40000000

    # ---- cells
    def cell(self, st, at, n):
        c = st.env.get(("cell", at))
        if c is not None and c[0] == n:
            return c[1]
        out = 0
        for i in range(n):
            b = self.byte(st, at + i)
            if b is None:
                return ("sym", "junk")
            out |= b << 8 * i
        return ("c", out)

    def byte(self, st, at):
        for lo in range(at, at - 8, -1):
            c = st.env.get(("cell", lo))
            if c is not None and lo + c[0] > at:
                return c[1][1] >> 8 * (at - lo) & 255 if c[1][0] == "c" else None
        return 0

    def put(self, st, at, n, x):
        if st.env.get(("cell", at), (0,))[0] != n:
            for lo in range(at - 7, at + n):
                c = st.env.get(("cell", lo))
                if c is not None and lo + c[0] > at:
                    bs = [(lo + i, self.byte(st, lo + i)) for i in range(c[0]) if not at <= lo + i < at + n]
                    del st.env[("cell", lo)]
                    for i, b in bs:
                        st.env[("cell", i)] = (1, ("sym", "junk") if b is None else ("c", b))
        x = self.deep(st, x)
        st.env[("cell", at)] = (n, ("c", x[1] & (1 << 8 * n) - 1) if x[0] == "c" else x)

    def layout(self, adt):
        """where the fields of a structure are, each with the structure it is itself if it is one"""
        a = self.prog.adts[adt]
        out = []
        for f, at in zip(a["variants"][0]["f"], a["layout"]["offsets"]):
            ty = self.prog.types[f["t"]]
            if ty["k"] == "adt":
                out.append((at, self.prog.adts[ty["d"]]["layout"]["size"], ty["d"]))
            elif ty["s"] in WIDTH:
                out.append((at, WIDTH[ty["s"]], None))
            else:
                raise Anchor("a field of %s in memory that is a %s" % (adt, ty["s"]))
        return out, a["layout"]["size"]

    def view(self, root, path):
        """the part of memory a path is: (where, width, structure or kind)"""
        _, lo, hi, kind = root
        for e in path:
            if isinstance(e, tuple) and e[0] == "v" or e == "*":
                continue
            if isinstance(e, tuple) and e[0] == "i" and e[1][0] == "c":
                e = e[1][1]
            if isinstance(e, tuple) and e[0] == "part":
                w = 8 if kind == "w" else 1
                lo, hi = lo + e[1] * w, lo + e[2] * w
                continue
            if not isinstance(e, int):
                raise Untold("a step into memory: " + str(e)[:80])
            if kind in ("b", "w", None):
                w = 8 if kind == "w" else 1
                lo, kind = lo + e * w, "cell"
                hi = lo + w
            else:
                at, n, inner = self.layout(kind)[0][e]
                lo, kind = lo + at, inner or "cell"
                hi = lo + n
        if kind not in ("b", "w", "cell", None):
            hi = lo + self.layout(kind)[1]
        return lo, hi, kind

    def load(self, st, root, path):
        if root[0] != "ram":
            return super().load(st, root, path)
        lo, hi, kind = self.view(root, path)
        if kind == "cell":
            return self.cell(st, lo, hi - lo)
        if kind in ("b", "w"):
            w = 8 if kind == "w" else 1
            return ("arr", tuple(self.cell(st, i, w) for i in range(lo, hi, w)))
        if kind is None:
            raise Anchor("a pointer to memory of no known kind is read")
        return ("adt", kind, 0, tuple(self.load(st, ("ram", lo + at, lo + at + n, d or "cell"), ()) for at, n, d in self.layout(kind)[0]))

    def store(self, st, root, path, x):
        if root[0] != "ram":
            return super().store(st, root, path, x)
        lo, hi, kind = self.view(root, path)
        x = self.deref(st, x)
        if kind == "cell":
            if x[0] == "adt" and len(x[3]) == 1:
                x = self.deref(st, x[3][0])
            return self.put(st, lo, hi - lo, x)
        if kind in ("b", "w"):
            w = 8 if kind == "w" else 1
            for i, e in enumerate(x[1]):
                self.put(st, lo + i * w, w, e)
            return
        if kind is None or x[0] != "adt" or x[1] != kind:
            raise Anchor("a store to memory of " + str(x)[:80])
        for (at, n, d), e in zip(self.layout(kind)[0], x[3]):
            self.store(st, ("ram", lo + at, lo + at + n, d or "cell"), (), e)

    def whole(self, st, p):
        """the list in memory a pointer leads to: (lo, hi, kind)"""
        for _ in range(20):
            if in_ram(p):
                lo, hi, kind = self.view(p[1], p[2])
                return (lo, hi, kind) if kind in ("b", "w") else None
            if p[0] != "ptr":
                return None
            if p[1][0] == "ram":
                return None
            p = self.load(st, p[1], p[2])
        return None

    def rvalue(self, st, frame, rv, fn):
        if rv[0] == "cast" and not rv[1].startswith("IntToInt"):
            v = self.operand(st, frame, rv[2], fn)
            if in_ram(v):
                to = self.prog.types[rv[3]]
                lo, hi, kind = self.view(v[1], v[2])
                if to["s"] == "usize":
                    # the address, as the checks of alignment see it
                    return ("c", (1 << 20) + lo)
                a = self.prog.types[to["t"]] if to.get("t") is not None else None
                if a is not None and a["k"] == "adt" and a["d"] in self.prog.adts:
                    return ram(lo, hi, a["d"])
            return v
        if rv[0] == "un" and rv[1] == "Not":
            a = self.deep(st, self.operand(st, frame, rv[2], fn))
            if a[0] == "c" and self.kind_of(rv[2], fn) != "bool":
                return ("c", ~a[1] & (1 << 8 * WIDTH.get(self.kind_of(rv[2], fn), 8)) - 1)
        if rv[0] == "un" and rv[1] == "Neg":
            a = self.deep(st, self.operand(st, frame, rv[2], fn))
            if a[0] == "c":
                return ("c", -a[1])
        return super().rvalue(st, frame, rv, fn)

    def kind_of(self, o, fn):
        from .mir import op_place
        p = op_place(o)
        if p is not None and len(p) == 1:
            return self.prog.tstr(fn.locals[p[0]])
        if p is None and "k" in o:
            return self.prog.tstr(o["k"]["t"])
        return "u64"

    def model(self, name, callee, args, st, t, fn):
        if not args:
            return super().model(name, callee, args, st, t, fn)
        a = args[0]
        if callee in self.prog.fns:
            return super().model(name, callee, args, st, t, fn)
        if a[0] == "adt" and a[1].startswith("core::ops::range::Range") and "iter" in str(callee):
            x = [self.deep(st, v) for v in a[3]]
            if len(x) == 2 and x[0][0] == x[1][0] == "c":
                a = ("arr", tuple(("c", i) for i in range(x[0][1], x[1][1] + ("Inclusive" in a[1]))))
                args = [a] + list(args[1:])
                if name in ("into_iter", "by_ref"):
                    return [(st, a)]
                if name == "rev":
                    return [(st, ("arr", a[1][::-1]))]
                return self.std(name, t["f"].get("d") or "", args, st, t, fn, len(st.frames))
        if name in ("as_ptr", "as_mut_ptr"):
            w = self.whole(st, a)
            if w:
                return [(st, ram(w[0], w[1], None))]
            if self.slot(st, a) or self.deref(st, a)[0] == "arr":
                return [(st, ram(0, None, None))]
        if name == "cast" and in_ram(a):
            ty = self.prog.types[t["f"]["a"][-1]] if t["f"].get("a") else None
            if ty is not None and ty["k"] == "adt":
                return [(st, ram(a[1][1], a[1][2], ty["d"]))]
            return [(st, a)]
        if name in ("from_raw_parts", "from_raw_parts_mut") and in_ram(a):
            n = self.deep(st, args[1])
            ty = self.prog.types[t["f"]["a"][0]]["s"]
            if n[0] == "c" and WIDTH.get(ty) in (1, 8):
                w = WIDTH[ty]
                return [(st, ram(a[1][1], a[1][1] + n[1] * w, "w" if w == 8 else "b"))]
        w = self.whole(st, a)
        if w:
            lo, hi, kind = w
            size = 8 if kind == "w" else 1
            n = (hi - lo) // size
            if name in ("index", "index_mut", "get", "get_mut") and len(args) == 2:
                i = self.deep(st, args[1])
                if i[0] == "c":
                    ok, r = 0 <= i[1] < n, ("ptr", ("ram", lo, hi, kind), (i[1],))
                else:
                    b = self.bounds(i, n)
                    if b is None:
                        raise Untold("a part of memory: " + str(i)[:100])
                    ok, r = 0 <= b[0] <= b[1] <= n, ram(lo + b[0] * size, lo + b[1] * size, kind)
                if name.startswith("get"):
                    return [(st, some(r) if ok else NONE)]
                if not ok:
                    self.diverged.append((st, fn, -1))
                    return []
                return [(st, r)]
            if name in ("split_at", "split_at_mut"):
                i = self.deep(st, args[1])
                if i[0] == "c":
                    if i[1] > n:
                        self.diverged.append((st, fn, -1))
                        return []
                    m = lo + i[1] * size
                    return [(st, ("tup", (ram(lo, m, kind), ram(m, hi, kind))))]
            if name == "copy_within":
                r, to = self.deep(st, args[1]), self.deep(st, args[2])
                b = self.bounds(r, n)
                if b is None or to[0] != "c":
                    raise Untold("what is moved in memory is not known")
                if not (0 <= b[0] <= b[1] <= n and to[1] + b[1] - b[0] <= n):
                    self.diverged.append((st, fn, -1))
                    return []
                self.move(st, lo + b[0] * size, lo + b[1] * size, lo + to[1] * size)
                return [(st, ("tup", ()))]
            if name in ("copy_from_slice", "clone_from_slice"):
                x = self.bytes_of(st, args[1])
                if x is None:
                    raise Untold("what is copied to memory is not known: " + str(self.deep(st, args[1]))[:100])
                if len(x) != n:
                    self.diverged.append((st, fn, -1))
                    return []
                for i, e in enumerate(x):
                    self.put(st, lo + i * size, size, e)
                return [(st, ("tup", ()))]
            if name == "fill":
                for i in range(n):
                    self.put(st, lo + i * size, size, args[1])
                return [(st, ("tup", ()))]
            if name in ("len", "is_empty"):
                return [(st, ("c", n if name == "len" else int(not n)))]
        if name in ("max", "min") and len(args) == 2:
            x, y = (self.deep(st, v) for v in args)
            if x[0] == y[0] == "c":
                return [(st, ("c", (max if name == "max" else min)(x[1], y[1])))]
        if name == "resize" and len(args) == 3:
            s, n = self.slot(st, a), self.deep(st, args[1])
            if s and n[0] == "c":
                xs = s[2][1]
                self.store(st, s[0], s[1], ("arr", xs[:n[1]] + (args[2],) * (n[1] - len(xs))))
                return [(st, ("tup", ()))]
        if name == "repeat" and len(args) == 1:
            return [(st, ("forever", a))]
        if name == "take" and len(args) == 2 and self.deref(st, a)[0] == "forever":
            n = self.deep(st, args[1])
            if n[0] == "c":
                return [(st, ("arr", (self.deref(st, a)[1],) * n[1]))]
        return super().model(name, callee, args, st, t, fn)

    def bytes_of(self, st, v):
        v = self.deref(st, v)
        while v[0] == "rc":
            v = self.deref(st, st.env[v[1]])
        if v[0] == "arr":
            return [self.deref(st, x) for x in v[1]]
        if self.is_text(v):
            k = known(v)
            if k is not None:
                return [("c", b) for b in k.encode()]
        return None

    def move(self, st, lo, hi, to):
        cells, i = [], lo
        while i < hi:
            c = st.env.get(("cell", i))
            if c is not None and i + c[0] <= hi:
                cells.append((i, c))
                i += c[0]
                continue
            b = self.byte(st, i)
            cells.append((i, (1, ("sym", "junk") if b is None else ("c", b))))
            i += 1
        for i, (n, x) in cells:
            self.put(st, i - lo + to, n, x)
