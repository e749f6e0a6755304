"""Path-sensitive forward value flow: the abstract value of every place along
each acyclic path, with workspace callees and closures entered. Values are terms
over the symbolic inputs; nothing is executed and no path condition is solved: a
switch on a term that is not a known constant keeps all its successors."""
from .mir import op_place

STD_TRANSPARENT = ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull",
                   "core::ptr::Unique", "core::ptr::NonNull")
IDENT = {"clone", "deref", "deref_mut", "borrow", "borrow_mut", "as_ref", "as_mut", "into", "from", "as_slice",
         "as_str", "as_bytes", "to_vec", "to_owned", "into_boxed_slice", "to_string_lossy", "copied", "cloned", "unwrap",
         "expect", "as_deref", "into_iter", "iter", "by_ref", "identity", "as_mut_slice", "into_boxed_str"}
NEW = {"alloc::boxed::Box", "alloc::rcs::arc::Arc", "alloc::rc::Rc", "alloc::rcs::rc::Rc", "alloc::sync::Arc"}


class Budget(Exception):
    pass


class State:
    __slots__ = ("env", "trace", "facts", "frames", "credit")

    def __init__(self):
        self.credit = 0     # steps through sequences of known length
        self.env = {}
        self.trace = []
        self.facts = {}
        self.frames = ()

    def copy(self):
        s = State()
        s.frames = self.frames
        s.credit = self.credit
        s.env = dict(self.env)
        s.trace = list(self.trace)
        s.facts = dict(self.facts)
        return s


def short(d):
    """`core::num::<impl u64>::wrapping_add` -> `wrapping_add`"""
    return (d or "?").split("::")[-1]


def project(v, path):
    for i, e in enumerate(path):
        k = v[0]
        if k == "upd":
            q, x = v[2], v[3]
            rest = path[i:]
            if rest[:len(q)] == q:
                return project(x, rest[len(q):])
            if q[:len(rest)] == rest:
                return ("upd", project(v[1], rest), q[len(rest):], x)
            return project(v[1], rest)
        if isinstance(e, tuple) and e[0] == "v":
            v = ("proj", v, e) if k not in ("adt",) else v
            continue
        if k in ("tup", "arr", "clo") and isinstance(e, int):
            f = v[2] if k == "clo" else v[1]
            v = f[e] if e < len(f) else ("proj", v, e)
        elif k == "adt" and isinstance(e, int):
            v = v[3][e] if e < len(v[3]) else ("proj", v, e)
        elif isinstance(e, tuple) and e[0] == "i":
            v = at_index(v, e[1])
        elif isinstance(e, tuple) and e[0] == "sub" and k == "arr":
            v = ("arr", v[1][e[1]:len(v[1]) - e[2] if e[3] else e[2]])
        elif isinstance(e, tuple) and e[0] == "end" and k == "arr" and 0 < e[1] <= len(v[1]):
            v = v[1][-e[1]]
        else:
            v = ("proj", v, e)
    return v


def at_index(v, i):
    """element of a sequence; the index of a generic element selects the generic element"""
    if v[0] == "arr" and i[0] == "c" and i[1] < len(v[1]):
        return v[1][i[1]]
    if i[0] == "index" and not any(x[0] == "call" and x[1] in ("rev", "skip") for x in leaves(i)):
        return ("elem", v)
    return ("proj", v, ("i", i))


def setpath(v, path, x):
    if not path:
        return x
    e, rest = path[0], path[1:]
    k = v[0]
    if k == "arr" and isinstance(e, tuple) and e[0] == "i" and e[1][0] == "c":
        e = e[1][1]
    if isinstance(e, tuple) and e[0] == "v" and k == "adt":
        return setpath(v, rest, x)
    if isinstance(e, int):
        if k in ("tup", "arr") and e < len(v[1]):
            f = list(v[1])
            f[e] = setpath(f[e], rest, x)
            return (k, tuple(f))
        if k == "adt" and e < len(v[3]):
            f = list(v[3])
            f[e] = setpath(f[e], rest, x)
            return (k, v[1], v[2], tuple(f))
        if k == "clo" and e < len(v[2]):
            f = list(v[2])
            f[e] = setpath(f[e], rest, x)
            return (k, v[1], tuple(f))
    if k == "upd" and v[2] == path:
        return ("upd", v[1], path, x)
    return ("upd", v, path, x)


def wrapped(n, ty):
    """a number as an integer type has it"""
    bits = {"size": 64}.get(ty[1:], None) or (int(ty[1:]) if ty[:1] in "iu" and ty[1:].isdigit() else None)
    if bits is None or not isinstance(n, int):
        return n
    n &= (1 << bits) - 1
    return n - (1 << bits) if ty[0] == "i" and n >> (bits - 1) else n


class Interp:
    """Hooks (override): opaque(fn, args) -> keep the call as a term; model(name,
    callee, args, st, t, fn) -> list of (state, value) or None; variant(v, adt, st)
    -> variant index or None; simplify(term, st) -> term; on_switch(v, targets, st)."""

    DEEP = 30
    max_depth = 12
    max_steps = 20000
    loop_bound = 1
    recursion = 0       # how often a function is entered again while it runs

    def __init__(self, prog):
        self.prog = prog
        self.nframe = 0
        self.steps = 0
        self.diverged = []      # (state, fn, block) of paths that end in a panic
        self.adt_of = {}        # discriminants a term may have
        self.loops = []         # (state, fn, block) of paths cut at a loop

    # ---- hooks
    def opaque(self, fn, args):
        return False

    def model(self, name, callee, args, st, t, fn):
        return None

    def variant(self, v, adt, st):
        return None

    def simplify(self, t, st):
        return t

    def repeat(self, x, n):
        return ("call", "repeat", x)

    # ---- memory
    def load(self, st, root, path):
        v = st.env.get(root)
        if v is None:
            if root[0] == "mem":
                v = root[1]
            else:
                v = ("sym", "uninit")
        return project(v, path)

    def store(self, st, root, path, x):
        if not path:
            st.env[root] = x
            return
        v = st.env.get(root)
        if v is None:
            v = root[1] if root[0] == "mem" else ("sym", "uninit")
        st.env[root] = setpath(v, path, x)

    def deref(self, st, v, depth=0):
        """value behind a pointer (or the value itself)"""
        while v[0] == "ptr" and depth < 50:
            v = self.load(st, v[1], v[2])
            depth += 1
        return v

    def deep(self, st, v, d=0):
        """value with all pointers resolved"""
        v = self.deref(st, v)
        if d > self.DEEP:
            return v
        if v[0] in ("tup", "arr"):
            return (v[0], tuple(self.deep(st, x, d + 1) for x in v[1]))
        if v[0] == "adt":
            return (v[0], v[1], v[2], tuple(self.deep(st, x, d + 1) for x in v[3]))
        if v[0] == "clo":
            return (v[0], v[1], tuple(self.deep(st, x, d + 1) for x in v[2]))
        if v[0] in ("bin",):
            return (v[0], v[1], self.deep(st, v[2], d + 1), self.deep(st, v[3], d + 1))
        if v[0] == "un":
            return (v[0], v[1], self.deep(st, v[2], d + 1))
        if v[0] == "proj":
            return project(self.deep(st, v[1], d + 1), (v[2],))
        if v[0] == "call":
            return v[:2] + tuple(self.deep(st, x, d + 1) for x in v[2:])
        if v[0] == "upd":
            return ("upd", self.deep(st, v[1], d + 1), v[2], self.deep(st, v[3], d + 1))
        return v

    def lval(self, st, frame, place):
        root, path = ("l", frame, place[0]), ()
        for e in place[1:]:
            if e == "*":
                v = self.load(st, root, path)
                if v[0] == "ptr":
                    root, path = v[1], v[2]
                else:
                    root, path = ("mem", v), ()
            elif isinstance(e, str):
                path += (e,)
            elif "f" in e:
                if e.get("o") in STD_TRANSPARENT:
                    continue
                path += (e["f"],)
            elif "d" in e:
                path += (("v", e["d"]),)
            elif "i" in e:
                path += (("i", self.deep(st, self.load(st, ("l", frame, e["i"]), ()))),)
            elif "ci" in e:
                path += (e["ci"] if not e["e"] else ("end", e["ci"]),)
            elif "sub" in e:
                path += (("sub",) + tuple(e["sub"]),)
        # a path may run into pointers stored in aggregates
        return root, path

    def read(self, st, frame, place):
        root, path = self.lval(st, frame, place)
        return self.load(st, root, path)

    def operand(self, st, frame, o, fn):
        p = op_place(o)
        if p is not None:
            return self.read(st, frame, p)
        if "k" in o:
            k = o["k"]
            ty = self.prog.types[k["t"]]
            if ty["k"] in ("fndef",):
                return ("fn", self.method(ty))
            if ty["k"] == "closure":
                return ("clo", ty["d"], ())
            if "v" in k:
                return ("c", int(k["v"]))
            if "str" in k:
                return ("s", k["str"])
            if "bytes" in k:
                return ("s", k["bytes"])
            if "promoted" in k:
                pf = self.prog.fns.get("%s::{promoted#%d}" % (fn.id, k["promoted"]))
                if pf is not None:
                    outs = list(self.run(pf, [], st.copy(), 0))
                    if len(outs) == 1:
                        return self.deep(outs[0][0], outs[0][1])
            if "d" in k:
                cf = self.prog.fns.get(k["d"])
                if k["d"] in self.prog.consts:
                    return ("c", self.prog.consts[k["d"]])
                if cf is not None and cf.kind == "const":
                    outs = list(self.run(cf, [], st.copy(), 0))
                    if len(outs) == 1:
                        return self.deep(outs[0][0], outs[0][1])
                return ("sym", k["d"])
            if ty["k"] == "adt":
                a = self.prog.adts.get(ty["d"])
                if a and a["kind"] != "enum" and not a["variants"][0]["f"]:
                    return ("adt", ty["d"], 0, ())
            if ty["k"] == "tuple" and not ty["a"]:
                return ("tup", ())
            return ("sym", "const:" + ty["s"])
        return ("sym", "rc")

    def on_drop(self, st, fn, t):
        pass

    # ---- execution
    def start(self, fn, args, st=None):
        self.steps = 0
        return list(self.run(fn, args, st or State(), 0))

    def run(self, fn, args, st, depth):
        self.nframe += 1
        frame = self.nframe
        for i, a in enumerate(args):
            st.env[("l", frame, i + 1)] = a
        st.frames += (fn.id,)
        for s in self.block(fn, frame, 0, st, {}, depth):
            s.frames = s.frames[:-1]
            v = self.load(s, ("l", frame, 0), ())
            yield s, v

    def block(self, fn, frame, b, st, seen, depth):
        work = [(b, st, seen)]
        while work:
            b, st, seen = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget(fn.id)
                n = seen.get(b, 0)
                if n > self.loop_bound + st.credit:
                    self.loops.append((st, fn, b))
                    break
                seen = dict(seen)
                seen[b] = n + 1
                blk = fn.blocks[b]
                for s in blk["s"]:
                    self.stmt(st, frame, s, fn)
                t = blk["t"]
                k = t["k"]
                if k == "goto" or k == "drop":
                    if k == "drop":
                        self.on_drop(st, fn, t)
                    b = t["t"]
                elif k == "return":
                    yield st
                    break
                elif k == "assert":
                    v = self.simplify(self.deep(st, self.operand(st, frame, t["o"], fn)), st)
                    if v[0] == "c":
                        if bool(v[1]) != bool(t["x"]):
                            self.diverged.append((st, fn, b))
                            break
                    else:
                        st.trace.append(("assert", t["m"], tuple(self.deep(st, self.operand(st, frame, o, fn))
                                                                 for o in t["ops"]), fn.id))
                    b = t["t"]
                elif k == "switch":
                    v = self.simplify(self.deep(st, self.operand(st, frame, t["o"], fn)), st)
                    outs = self.switch(st, v, t, fn)
                    if not outs:
                        break
                    for tb, s2 in outs[1:]:
                        work.append((tb, s2, seen))
                    b, st = outs[0]
                elif k == "call":
                    outs = []
                    for s2, v in self.call(st, frame, b, t, fn, depth):
                        if t["t"] is None:
                            self.diverged.append((s2, fn, b))
                            continue
                        root, path = self.lval(s2, frame, t["dst"])
                        self.store(s2, root, path, v)
                        outs.append(s2)
                    if not outs:
                        break
                    for s2 in outs[1:]:
                        work.append((t["t"], s2, seen))
                    b, st = t["t"], outs[0]
                else:
                    if k not in ("unreachable",):
                        self.diverged.append((st, fn, b))
                    break

    def switch(self, st, v, t, fn):
        if v[0] == "c":
            for val, tb in t["tg"]:
                if int(val) == v[1]:
                    return [(tb, st)]
            return [(t["e"], st)]
        if v[:2] == ("un", "Not") and self.is_bool(v, t, fn):
            t = dict(t, tg=[(1 - int(val), tb) for val, tb in t["tg"]])
            return self.switch(st, v[2], t, fn)
        f = st.facts.get(v)
        outs = []
        if isinstance(f, int):
            return self.switch(st, ("c", f), t, fn)
        excl = f or frozenset()
        for val, tb in t["tg"]:
            if int(val) in excl:
                continue
            s2 = st.copy()
            s2.facts[v] = int(val)
            outs.append((tb, s2))
        if fn.blocks[t["e"]]["t"]["k"] != "unreachable":
            s2 = st.copy()
            s2.facts[v] = excl | frozenset(int(val) for val, _ in t["tg"])
            if s2.facts[v] in ({0}, {1}) and self.is_bool(v, t, fn):
                s2.facts[v] = 1 - min(s2.facts[v])
            elif v[0] == "call" and v[1] == "discr" and v[2] in self.adt_of:
                left = self.adt_of[v[2]] - s2.facts[v]
                if len(left) == 1:
                    s2.facts[v] = min(left)
            outs.append((t["e"], s2))
        return outs

    def is_bool(self, v, t, fn):
        if v[0] == "bin":
            return v[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge")
        p = op_place(t["o"])
        return p is not None and len(p) == 1 and self.prog.types[fn.locals[p[0]]]["s"] == "bool"

    def same_error(self, t, fn):
        """`?` between results of the same error type"""
        if fn is None or not t.get("args") or op_place(t["args"][0]) is None:
            return False
        a = self.prog.types[fn.locals[op_place(t["args"][0])[0]]]
        b = self.prog.types[fn.locals[t["dst"][0]]]
        return len(a.get("a") or ()) == 2 and len(b.get("a") or ()) == 2 and self.prog.tstr(a["a"][1]) == self.prog.tstr(b["a"][1])

    def method(self, ty):
        """the implementation a function item of a trait stands for"""
        d = ty["d"]
        if ty.get("a") and (d not in self.prog.fns or not self.prog.fns[d].blocks):
            o = self.prog.adt_of(ty["a"][0])
            ms = [x for x in self.prog.fns.values() if x.trait_item == d and x.self_ty is not None and
                  (self.prog.adt_of(x.self_ty) == o if o else self.prog.tstr(x.self_ty) == self.prog.tstr(ty["a"][0]))]
            if len(ms) == 1:
                return ms[0].id
        return d

    def stmt(self, st, frame, s, fn):
        root, path = self.lval(st, frame, s[0])
        rv = s[1]
        k = rv[0]
        if k == "setdiscr":
            return
        self.store(st, root, path, self.rvalue(st, frame, rv, fn))

    def rvalue(self, st, frame, rv, fn):
        k = rv[0]
        if k == "use":
            return self.operand(st, frame, rv[1], fn)
        if k == "cast":
            v = self.operand(st, frame, rv[2], fn)
            if rv[1].startswith("IntToInt") and v[0] not in ("ptr",):
                v = self.deep(st, v)
                if v[0] == "c":
                    return ("c", wrapped(v[1], self.prog.tstr(rv[3])))
                return self.simplify(("un", "as " + self.prog.tstr(rv[3]), v), st)
            return v
        if k in ("ref", "rawptr"):
            p = rv[2] if k == "ref" else rv[1]
            root, path = self.lval(st, frame, p)
            if root[0] == "mem" and root not in st.env and not (k == "ref" and rv[1]):
                return project(root[1], path)
            return ("ptr", root, path)
        if k == "bin":
            a = self.deep(st, self.operand(st, frame, rv[2], fn))
            b = self.deep(st, self.operand(st, frame, rv[3], fn))
            if rv[1].endswith("WithOverflow"):
                op = rv[1][:-len("WithOverflow")]
                both = a[0] == "c" and b[0] == "c" and op == "Mul"
                return ("tup", ((self.fold if both else self.simplify)(("bin", op, a, b), st), ("call", "overflow:" + op, a, b)))
            return self.fold(("bin", rv[1].replace("Unchecked", ""), a, b), st)
        if k == "un":
            a = self.deep(st, self.operand(st, frame, rv[2], fn))
            if rv[1] == "Not" and a[0] == "c" and a[1] in (0, 1):
                return ("c", 1 - a[1])
            return self.simplify(("un", rv[1], a), st)
        if k == "discr":
            v = self.deref(st, self.read(st, frame, rv[1]))
            adt = self.prog.types[rv[2]].get("d")
            return self.discr(st, v, adt)
        if k == "agg":
            ops = tuple(self.operand(st, frame, o, fn) for o in rv[2])
            kd = rv[1]
            if kd["k"] == "adt":
                if kd["d"] in STD_TRANSPARENT and len(ops) >= 1:
                    return ops[0]
                return ("adt", kd["d"], kd["vi"], ops)
            if kd["k"] == "closure":
                return ("clo", kd["d"], ops)
            if kd["k"] == "array":
                return ("arr", ops)
            return ("tup", ops)
        if k == "repeat":
            return self.repeat(self.operand(st, frame, rv[1], fn), rv[2])
        return ("sym", "other")

    def fold(self, t, st):
        _, op, a, b = t
        if a[0] == "adt" and b[0] == "adt" and op in ("Eq", "Ne") and a[1] == b[1] and (a[2] != b[2] or not a[3]):
            return ("c", int((a[2] == b[2]) == (op == "Eq")))
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            r = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}.get(op)
            if r is not None:
                return ("c", int(r))
            r = {"Add": x + y, "Sub": x - y, "Mul": x * y, "BitOr": x | y, "BitAnd": x & y, "BitXor": x ^ y}.get(op)
            if r is not None:
                return ("c", r)
            if op in ("Div", "Rem") and x >= 0 and y > 0:
                return ("c", x // y if op == "Div" else x % y)
            if op == "Shr" and x >= 0 and 0 <= y < 64:
                return ("c", x >> y)
            if op == "Shl" and 0 <= y < 64:
                return ("c", (x << y) & (2 ** 64 - 1))
        return self.simplify(t, st)

    def discr(self, st, v, adt):
        a = self.prog.adts.get(adt)
        if v[0] == "adt" and v[1] == adt or v[0] == "adt" and a is None:
            if a is None:
                return ("c", v[2])
            return ("c", int(a["variants"][v[2]]["discr"]))
        w = self.deep(st, v)
        vi = self.variant(w, adt, st)
        if vi is not None:
            return ("c", int(a["variants"][vi]["discr"]))
        if a is not None and a["kind"] == "enum":
            self.adt_of[w] = frozenset(int(x["discr"]) for x in a["variants"])
        elif adt in ("core::option::Option", "core::result::Result"):
            self.adt_of[w] = frozenset((0, 1))
        return ("call", "discr", w)

    # ---- calls
    def callee_value(self, st, v):
        v = self.deref(st, v)
        return v

    def apply(self, f, args, st, depth, t=None):
        """call of a closure or fn value"""
        f = self.callee_value(st, f)
        if f[0] == "clo":
            c = self.prog.fns.get(f[1])
            if c is not None:
                st.env[("clo", id(f), self.nframe)] = f
                self.nframe += 1
                root = ("cl", self.nframe)
                st.env[root] = f
                first = self.prog.types[c.locals[1]]["k"]
                a0 = ("ptr", root, ()) if first in ("ref", "ptr") else f
                yield from self.run(c, [a0] + list(args), st, depth + 1)
                return
        if f[0] == "fn":
            c = self.prog.fns.get(f[1])
            if c is not None and not self.opaque(c, args):
                yield from self.run(c, list(args), st, depth + 1)
                return
            r = self.model(short(f[1]), f[1], list(args), st, t, None)
            if r is not None:
                yield from r
                return
            # constructor functions
            d = f[1].rsplit("::", 1)
            a = self.prog.adts.get(d[0])
            if a is not None:
                for vi, vv in enumerate(a["variants"]):
                    if vv["n"] == d[1]:
                        yield st, ("adt", d[0], vi, tuple(args))
                        return
            yield from self.unknown(f[1], args, st, t, None)
            return
        r = tuple(self.deep(st, x) for x in [f] + list(args))
        st.trace.append(("call", "apply", r, None))
        yield st, ("call", "apply") + r

    def call(self, st, frame, b, t, fn, depth):
        f = t["f"]
        args = [self.operand(st, frame, o, fn) for o in t["args"]]
        if "fp" in f:
            yield from self.apply(self.operand(st, frame, f["fp"], fn), args, st, depth, t)
            return
        callee = f.get("r") or f.get("d")
        d = f.get("d") or ""
        name = short(d)
        m = self.model(name, callee, args, st, t, fn)
        if m is not None:
            yield from m
            return
        if f.get("tr", "").startswith("core::ops::function::Fn"):
            tup = self.deref(st, args[1])
            inner = list(tup[1]) if tup[0] == "tup" else [tup]
            fv = self.callee_value(st, args[0])
            if fv[0] in ("clo", "fn") and depth < self.max_depth:
                yield from self.apply(fv, inner, st, depth, t)
                return
            yield from self.unknown("apply", [fv] + inner, st, t, fn)
            return
        targets = self.prog.targets(t)
        if f.get("r") is None and str(f.get("d")).split("::")[0] in ("core", "alloc", "std"):
            targets = []        # a trait that others implement as well
        if len(targets) == 1 and targets[0].kind == "fn" and f.get("ik") != "virtual" and depth < self.max_depth:
            tg = targets[0]
            if tg.derived and name == "clone" and not self.opaque(tg, args):
                yield st, self.deref(st, args[0])
                return
            if st.frames.count(tg.id) <= self.recursion and not self.opaque(tg, args):
                yield from self.run(tg, args, st, depth + 1)
                return
            yield from self.unknown(tg.id, args, st, t, fn)
            return
        r = self.std(name, d, args, st, t, fn, depth)
        if r is not None:
            yield from r
            return
        yield from self.unknown(callee, args, st, t, fn)

    def unknown(self, callee, args, st, t, fn):
        term = ("call", short(callee)) + tuple(self.deep(st, a) for a in args)
        st.trace.append(("call", callee, term[2:], fn.id if fn else None))
        yield st, self.simplify(term, st)

    def std(self, name, d, args, st, t, fn, depth):
        """library functions with a structural meaning"""
        if t["t"] is None:
            return None
        own = d.rsplit("::", 1)[0]
        if name == "new" and len(args) == 1 and any(own.startswith(x) for x in NEW):
            return [(st, args[0])]
        if name == "pin" and len(args) == 1:
            return [(st, args[0])]
        if name in IDENT and len(args) >= 1:
            v = self.deref(st, args[0])
            if name in ("unwrap", "expect"):
                if v[0] == "adt" and v[3]:
                    return [(st, v[3][0])]
                if v[0] == "adt":
                    self.diverged.append((st, fn, -1))
                    return []
                return None
            if name in ("deref", "deref_mut", "borrow", "borrow_mut", "as_mut", "by_ref", "as_ref", "as_slice",
                        "as_mut_slice") and args[0][0] == "ptr":
                return [(st, args[0])]
            return [(st, v)]
        if name == "branch":
            v = self.deref(st, args[0])
            cf = "core::ops::control_flow::ControlFlow"
            if v[0] == "adt":
                a = self.prog.adts.get(v[1])
                vn = a["variants"][v[2]]["n"] if a else None
                if vn in ("Ok", "Some"):
                    return [(st, ("adt", cf, 0, (v[3][0],)))]
                if vn in ("Err", "None"):
                    return [(st, ("adt", cf, 1, (v,)))]
            return self.try_unknown(v, cf, st, t)
        if name == "from_residual":
            v = self.deep(st, args[0])
            if v[0] == "adt" and v[1].endswith("result::Result") and v[2] == 1 and self.same_error(t, fn):
                return [(st, v)]
            if v[0] == "adt" and v[1] == "core::option::Option" and self.dst_type(t, fn).startswith(v[1]):
                return [(st, v)]
            return [(st, ("call", "residual", v))]
        if name in ("checked_add",) and False:
            return None
        if name in ("unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or"):
            v = self.deref(st, args[0])
            if v[0] == "adt":
                a = self.prog.adts.get(v[1])
                vn = a["variants"][v[2]]["n"] if a else None
                some = vn in ("Some", "Ok")
                if name == "map_or" and some:
                    return self.apply(args[2], [v[3][0]], st, depth, t)
                if some:
                    return [(st, v[3][0])]
                if name == "unwrap_or_else":
                    return self.apply(args[1], list(v[3]), st, depth, t)
                if name in ("unwrap_or", "map_or"):
                    return [(st, args[1])]
        if name == "map":
            v = self.deref(st, args[0])
            if v[0] == "adt":
                a = self.prog.adts.get(v[1])
                vn = a["variants"][v[2]]["n"] if a else None
                if vn in ("None", "Err"):
                    return [(st, v)]
                if vn in ("Some", "Ok"):
                    return [(s2, ("adt", v[1], v[2], (x,))) for s2, x in self.apply(args[1], [v[3][0]], st, depth, t)]
        if name in ("eq", "ne", "lt", "le", "gt", "ge") and len(args) == 2:
            op = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[name]
            a, b = self.deep(st, args[0]), self.deep(st, args[1])
            while name in ("eq", "ne") and a[0] == b[0] == "adt" and a[1] == b[1] and a[1].startswith("core::"):
                if a[2] != b[2] or not a[3]:
                    return [(st, ("c", int((a[2] == b[2]) == (name == "eq"))))]
                a, b = a[3][0], b[3][0]
            return [(st, self.fold(("bin", op, a, b), st))]
        if name == "not" and len(args) == 1:
            v = self.deep(st, args[0])
            return [(st, ("c", 1 - v[1]) if v[0] == "c" else ("un", "Not", v))]
        return None

    def try_unknown(self, v, cf, st, t=None):
        w = self.deep(st, v)
        return [(st, ("adt", cf, 0, (("ok", w),)))]


def leaves(v, out=None):
    """sub-terms of a term"""
    if out is None:
        out = []
    out.append(v)
    for x in v[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                leaves(x, out)
            else:
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        leaves(y, out)
    return out
