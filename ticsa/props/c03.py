"""C03: integer and string primitives: same meaning in every interpreter, total."""
from .. import trav
from ..absint import Interp, State, short, leaves
from ..mir import Anchor

RULE = ("for each interpreter (the function that evaluates an expression, the one that compiles it to closures, and the "
        "bytecode machine's loop) and each operator / intrinsic: the value it produces, reconstructed from the code as a "
        "term over the operands on every path and for every ordering of the operands (a<b, a=b, a>b; b=0, b>0; index "
        "inside or outside of the string), is the one term that defines the primitive; operands are taken in order; no "
        "path has an overflow, bounds or division check that the ordering does not decide")
ASSUMPTIONS = ["library functions (wrapping_*, checked_*, slice::get, to_string) have their documented meaning",
               "the JIT's emitted machine code is outside of this rule"]

EXPR = "ticc_core::ir::Expr"
OP = "ticc_core::ir::Op"
INTR = "ticc_core::ir::Intrinsic"
OPTION = "core::option::Option"
BYTES = "ticc_core::ir::ByteString"
RESULT = "core::result::Result"
REL = {"Less": "Lt", "LessEq": "Le", "Greater": "Gt", "GreaterEq": "Ge", "Equal": "Eq", "NotEqual": "Ne"}
ARITH = ("Add", "Subtract", "Multiply", "Divide", "Modulo")
TRUE_IN = {"Lt": ("lt",), "Le": ("lt", "eq"), "Gt": ("gt",), "Ge": ("gt", "eq"), "Eq": ("eq",), "Ne": ("lt", "gt")}
SIGS = {"StringLen": "s", "StringConcat": "ss", "StringCharAt": "is", "StringSubstring": "iis", "StringFromChar": "i",
        "IntToString": "i"}
FLIP = {"lt": "gt", "gt": "lt", "eq": "eq"}

A = lambda i: ("arg", i)


def none():
    return ("adt", OPTION, 0, ())


def some(x):
    return ("adt", OPTION, 1, (x,))


class Prim(Interp):
    """ctx: facts of the partition: ('rel', i, j) -> lt/eq/gt between terms"""

    def __init__(self, prog, sig, rels):
        super().__init__(prog)
        self.sig = sig
        self.rels = rels

    # relation between two terms in this partition
    def rel(self, a, b):
        if a == b:
            return "eq"
        r = self.rels.get((a, b))
        if r is None and (b, a) in self.rels:
            r = FLIP[self.rels[(b, a)]]
        return r

    def norm(self, t):
        if t[0] == "un" and t[1] in ("as u64", "as usize"):
            # u64 and usize are the same size here; a byte is widened
            return self.norm(t[2])
        if t[0] == "proj" and t[1][0] == "adt" and t[2] == 0:
            return self.norm(t[1][3][0])
        if t[0] == "proj" and isinstance(t[2], tuple) and t[2][0] == "i":
            return self.slice("index", self.norm(t[1]), self.norm(t[2][1])) or t
        if t[0] == "adt" and t[1] == BYTES:
            return self.norm(t[3][0])
        return t

    def simplify(self, t, st):
        if t[0] == "un":
            t = ("un", t[1], self.norm(t[2]))
            if t[1] in ("as u64", "as usize"):
                return t[2]
            if t[1] == "PtrMetadata":
                return self.length(t[2])
            return t
        if t[0] == "bin":
            op, a, b = t[1], self.norm(t[2]), self.norm(t[3])
            if op in TRUE_IN:
                r = self.rel(a, b)
                if r:
                    return ("c", int(r in TRUE_IN[op]))
            return ("bin", op, a, b)
        if t[0] == "call":
            n = t[1]
            a = [self.norm(x) for x in t[2:]]
            ops = {"wrapping_add": "Add", "wrapping_sub": "Sub", "wrapping_mul": "Mul"}
            if n in ops and len(a) == 2:
                return ("bin", ops[n], a[0], a[1])
            over = {"overflowing_add": "Add", "overflowing_sub": "Sub", "overflowing_mul": "Mul"}
            if n in over and len(a) == 2:
                return ("tup", (("bin", over[n], a[0], a[1]), ("sym", "overflowed")))
            if n in ("checked_div", "checked_rem", "wrapping_div", "wrapping_rem", "div", "rem") and len(a) == 2:
                o = "Div" if n.endswith("div") else "Rem"
                r = self.rel(a[1], ("c", 0))
                v = ("bin", o, a[0], a[1])
                if n.startswith("checked"):
                    if r == "eq":
                        return none()
                    if r == "gt":
                        return some(v)
                elif r == "gt":
                    return v
            if n == "cmp" and len(a) == 2:
                r = self.rel(a[0], a[1])
                if r:
                    return ("adt", "core::cmp::Ordering", {"lt": 0, "eq": 1, "gt": 2}[r], ())
            if n == "len":
                return self.length(a[0])
            if n == "is_empty":
                r = self.rel(self.length(a[0]), ("c", 0))
                if r:
                    return ("c", int(r == "eq"))
            if n in ("get", "index", "get_unchecked", "index_mut", "get_mut") and len(a) == 2:
                r = self.slice(n, a[0], a[1])
                if r is not None:
                    return r
            if n in ("min", "max") and len(a) == 2:
                r = self.rel(a[0], a[1])
                if r:
                    return a[0] if (r != "gt") == (n == "min") else a[1]
            if n in ("concat", "add") and len(a) == 1 and a[0][0] == "arr":
                return ("cat",) + a[0][1]
            return ("call", n) + tuple(a)
        return t

    def length(self, s):
        if s[0] == "arr":
            return ("c", len(s[1]))
        if s[0] == "s":
            return ("c", len(s[1]))
        return ("len", s)

    def slice(self, n, s, i):
        """s[i], s[a..], s[..b] with the partition's facts"""
        L = self.length(s)
        if i[0] == "adt":
            rn = i[1].split("::")[-1]
            if rn == "RangeFull":
                return s if n.startswith("index") else some(s)
            if rn == "RangeFrom":
                lo, hi = self.norm(i[3][0]), None
            elif rn == "RangeTo":
                lo, hi = None, self.norm(i[3][0])
            elif rn == "Range":
                lo, hi = self.norm(i[3][0]), self.norm(i[3][1])
            else:
                return None
            r = "lt" if lo is None else self.rel(lo, L)
            if r is None and hi is None:
                return None
            if r == "gt":
                return none() if n == "get" else None
            v = s if lo is None else ("from", s, lo)
            if hi is not None:
                if lo is not None:
                    return None
                r2 = self.rel(hi, self.length(v))
                if hi == self.length(v):
                    r2 = "eq"
                elif r2 is None:
                    return None
                elif r2 == "gt":
                    return none() if n == "get" else None
                elif r2 == "lt":
                    v = ("to", v, hi)
            return some(v) if n == "get" else v
        r = self.rel(i, L)
        if r == "lt":
            v = ("at", s, i)
            return some(v) if n == "get" else v
        if r in ("eq", "gt") and n == "get":
            return none()
        return None

    def typed(self, k, adt):
        """the operand k as a runtime value of the given Value enum"""
        ty = self.sig[k]
        a = self.prog.adts[adt]
        want = {"i": "Int", "s": "String"}[ty]
        for vi, v in enumerate(a["variants"]):
            if v["n"] == want:
                x = A(k)
                if self.prog.types[v["f"][0]["t"]].get("d") == BYTES:
                    x = ("adt", BYTES, 0, (x,))
                return ("adt", adt, vi, (x,))
        raise Anchor("variant %s of %s" % (want, adt))

    def model(self, name, callee, args, st, t, fn):
        # growing a byte vector
        if name in ("with_capacity", "new") and "vec::Vec" in (callee or ""):
            return [(st, ("cat",))]
        if name in ("extend", "extend_from_slice", "append", "push_str") and len(args) == 2 and args[0][0] == "ptr":
            old = self.load(st, args[0][1], args[0][2])
            if old[0] == "ptr":
                return None
            x = self.deep(st, args[1])
            if old[0] in ("cat", "arg", "from", "to"):
                o = old if old[0] == "cat" else ("cat", old)
                self.store(st, args[0][1], args[0][2], o + ((x[1:] if x[0] == "cat" else (x,))))
                return [(st, ("tup", ()))]
        if name == "push" and len(args) == 2 and args[0][0] == "ptr":
            old = self.load(st, args[0][1], args[0][2])
            if old == ("cat",):
                self.store(st, args[0][1], args[0][2], ("arr", (self.deep(st, args[1]),)))
                return [(st, ("tup", ()))]
        if name == "into_vec" and len(args) == 1:
            return [(st, self.deep(st, args[0]))]
        if name == "to_string" and len(args) == 1:
            return [(st, ("show", self.norm(self.deep(st, args[0]))))]
        if name == "from" and len(args) == 1 and self.deref(st, args[0])[0] != "adt":
            return [(st, self.norm(self.deep(st, args[0])))]
        return None


def canon(t):
    """strings are what they are made of"""
    if t[0] == "cat" and len(t) == 2:
        return canon(t[1])
    if t[0] == "cat":
        return ("cat",) + tuple(canon(x) for x in t[1:])
    if t[0] == "adt" and t[1].endswith("ByteString"):
        return canon(t[3][0])
    if t[0] == "bin" and t[1] in ("Add", "Mul"):
        return ("bin", t[1]) + tuple(sorted(t[2:], key=repr))
    if t == ("s", ""):
        return ("empty",)
    if t == ("arr", ()) or t == ("cat",):
        return ("empty",)
    if t[0] == "arr" and len(t[1]) == 1:
        return ("byte", t[1][0])
    if t[0] == "un" and t[1] == "as u8":
        return ("un", "as u8", t[2])
    return t


def cases():
    """(name, is operator, signature, [(partition name, relations, expected kind, expected term)])"""
    a, b = A(0), A(1)
    Z = ("c", 0)
    for n in ARITH:
        if n in ("Divide", "Modulo"):
            o = "Div" if n == "Divide" else "Rem"
            part = [("divisor zero", {(b, Z): "eq"}, "Int", Z if n == "Divide" else a),
                    ("divisor nonzero", {(b, Z): "gt"}, "Int", ("bin", o, a, b))]
        else:
            o = {"Add": "Add", "Subtract": "Sub", "Multiply": "Mul"}[n]
            part = [("all", {}, "Int", canon(("bin", o, a, b)))]
        yield n, True, "ii", part
    for n, r in REL.items():
        yield n, True, "ii", [(x, {(a, b): x}, "Bool", ("c", int(x in TRUE_IN[r]))) for x in ("lt", "eq", "gt")]
    yield "StringLen", False, "s", [("all", {}, "Int", ("len", a))]
    yield "StringConcat", False, "ss", [("all", {}, "String", ("cat", a, b))]
    i, s = A(0), A(1)
    yield "StringCharAt", False, "is", [
        ("inside", {(i, ("len", s)): "lt"}, "Int", ("at", s, i)),
        ("at the end", {(i, ("len", s)): "eq"}, "Int", Z),
        ("outside", {(i, ("len", s)): "gt"}, "Int", Z)]
    st, ln, s = A(0), A(1), A(2)
    rest = ("from", s, st)
    parts = [("start after the end, length %s 0" % r, {(st, ("len", s)): "gt", (ln, Z): r}, "String", ("empty",))
             for r in ("eq", "gt")]
    for r1 in ("lt", "eq"):
        for r2 in ("lt", "eq", "gt"):
            parts.append(("start %s, length %s" % (r1, r2), {(st, ("len", s)): r1, (ln, ("len", rest)): r2}, "String",
                          ("to", rest, ln) if r2 == "lt" else rest))
    yield "StringSubstring", False, "iis", parts
    yield "StringFromChar", False, "i", [("all", {}, "String", ("byte", ("un", "as u8", a)))]
    yield "IntToString", False, "i", [("all", {}, "String", ("show", a))]


def expr_value(prog, name, isop):
    """the expression `x0 op x1` / `intrinsic(x0, ...)`"""
    e = prog.adts[EXPR]
    vn = {v["n"]: i for i, v in enumerate(e["variants"])}
    adt = OP if isop else INTR
    k = {v["n"]: i for i, v in enumerate(prog.adts[adt]["variants"])}
    if name not in k:
        raise Anchor("%s::%s" % (adt, name))
    o = ("adt", adt, k[name], ())
    if isop:
        return ("adt", EXPR, vn["Op"], (("child", 0), o, ("child", 1)))
    return ("adt", EXPR, vn["Intrinsic"], (o, ("arr", tuple(("child", i) for i in range(len(SIGS[name]))))))


class Walk(Prim):
    """an interpreter over expressions (directly, or through closures)"""

    def __init__(self, prog, sig, rels, root, value):
        super().__init__(prog, sig, rels)
        self.root = root
        self.value = value

    def child(self, st, args):
        for a in args:
            v = self.deep(st, a)
            if v[0] == "child":
                return v[1]
        return None

    def model(self, name, callee, args, st, t, fn):
        if callee == self.root.id or (t and any(x.id == self.root.id for x in self.prog.targets(t))):
            k = self.child(st, args)
            if k is not None:
                if self.prog.tstr(self.root.locals[0]).startswith(RESULT):
                    st.trace.append(("eval", k))
                    return [(st, ("adt", RESULT, 0, (self.typed(k, self.value),)))]
                return [(st, ("code", k))]
        if t and t["f"].get("tr", "").startswith("core::ops::function::Fn"):
            v = self.deref(st, args[0])
            if v[0] == "code":
                st.trace.append(("eval", v[1]))
                return [(st, ("adt", RESULT, 0, (self.typed(v[1], self.value),)))]
        if name in ("index", "get") and len(args) == 2:
            v = self.deep(st, args[0])
            i = self.deep(st, args[1])
            if v[0] == "arr" and i[0] == "c" and i[1] < len(v[1]):
                x = v[1][i[1]]
                return [(st, x if name == "index" else some(x))]
        return super().model(name, callee, args, st, t, fn)


def by_value(t):
    """does the term depend on an operand's value (lengths of existing strings are small)"""
    if t[0] == "arg":
        return True
    if t[0] == "len":
        return False
    return any(by_value(x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) or any(
        by_value(y) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], tuple) for y in x)


def risky(st):
    return [x for x in st.trace if x[0] == "assert" and x[1] != "other" and any(by_value(o) for o in x[2])]


def walk_outcomes(prog, root, value, name, isop, sig, rels):
    it = Walk(prog, sig, rels, root, value)
    e = expr_value(prog, name, isop)
    args = []
    for i in range(1, root.nargs + 1):
        args.append(e if prog.adt_of(root.locals[i]) == EXPR else ("sym", "env"))
    outs = []
    for st, v in it.start(root, args):
        v = it.deref(st, v)
        if v[0] == "clo":
            outs += list(it.apply(v, [("sym", "renv")], st, 0))
        else:
            outs.append((st, v))
    res = []
    for st, v in outs:
        v = it.deep(st, v)
        kind = term = None
        if v[0] == "adt" and v[1] == RESULT and v[2] == 0:
            w = v[3][0]
            if w[0] == "adt" and w[1] == value:
                kind = prog.adts[value]["variants"][w[2]]["n"]
                term = canon(it.norm(it.deep(st, w[3][0])))
        checks = risky(st)
        order = [x[1] for x in st.trace if x[0] == "eval"]
        res.append((kind, term if term is not None else v, order, checks))
    return res, it


class Machine(Prim):
    """the bytecode loop at one instruction"""

    def __init__(self, prog, sig, rels, opadt, vi, value, payload=None):
        super().__init__(prog, sig, rels)
        self.opadt, self.vi, self.value = opadt, vi, value
        self.payload = payload
        self.masks = {v for k, v in prog.consts.items() if k.endswith("::TAG_MASK")}
        self.string_tag = {v for k, v in prog.consts.items() if k.endswith("::STRING_TAG")}

    loop_bound = 0

    def variant(self, v, adt, st):
        if adt == self.opadt and v[0] != "adt":
            return self.vi
        return None

    def opaque(self, fn, args):
        # heap operations, and the collector
        return fn.self_ty is not None and (self.prog.adt_of(fn.self_ty) or "").startswith("ticc_eval::heap::") or \
            fn.nargs >= 1 and self.nodata(fn)

    def nodata(self, fn):
        # functions that only reach the collector: no value comes back
        if self.prog.tstr(fn.locals[0]) != "()":
            return False
        seen = self.prog.reachable([fn.id])
        return any(x.startswith("ticc_eval::heap::Heap::collect") for x in seen) and \
            not any(x.startswith("ticc_eval::heap::Heap::alloc") and self.prog.fns[x].nargs == 3 for x in seen)

    def elem(self, t, fn, i):
        p = t["args"][i]
        p = p.get("c") or p.get("m")
        if p is None or fn is None:
            return None
        ty = self.prog.types[self.prog.peel(fn.locals[p[0]])]
        if ty["k"] == "adt" and ty["d"].endswith("Vec") and ty["a"]:
            return self.prog.adt_of(ty["a"][0])
        return None

    def operand_value(self, k):
        a = self.prog.adts[self.value]
        want = {"i": "Int", "s": "Ptr"}[self.sig[k]]
        vi = [i for i, v in enumerate(a["variants"]) if v["n"] == want][0]
        return ("adt", self.value, vi, (A(k),))

    def simplify(self, t, st):
        if t[0] == "bin" and t[1] == "BitAnd":
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if y[0] == "c" and y[1] in self.masks and x[0] == "tag":
                    return ("len", x[1])
        if t[0] == "proj" and t[1][0] == "tup":
            return t[1][1][t[2]]
        return super().simplify(t, st)

    def slice(self, n, s, i):
        # the bytes of an object are the string and padding
        if s[0] == "bytes":
            if i[0] == "adt" and i[1].split("::")[-1] == "RangeTo" and self.norm(i[3][0]) == ("len", s[1]):
                return s[1] if n.startswith("index") else some(s[1])
            if i[0] != "adt" and self.rel(i, ("len", s[1])) == "lt":
                v = ("at", s[1], i)
                return v if n.startswith("index") else some(v)
            return None
        return super().slice(n, s, i)

    def model(self, name, callee, args, st, t, fn):
        if t is not None and fn is not None and args and args[0][0] == "ptr":
            el = self.elem(t, fn, 0)
            if el == self.value and name == "pop":
                n = sum(1 for x in st.trace if x[0] == "pop")
                st.trace.append(("pop", n))
                if n < len(self.sig):
                    return [(st, some(self.operand_value(len(self.sig) - 1 - n)))]
                return [(st, some(("sym", "below")))]
            if el == self.value and name == "push":
                st.trace.append(("push", self.deep(st, args[1])))
                return [(st, ("tup", ()))]
        if callee and "heap::Heap::obj_with" in callee:
            p = self.deep(st, args[1])
            return [(st, ("tup", (("tag", p), ("bytes", p))))]
        if callee and "heap::Heap::alloc" in callee and len(args) == 3:
            n = sum(1 for x in st.trace if x[0] == "alloc")
            st.trace.append(("alloc", n, self.deep(st, args[1]), self.deep(st, args[2])))
            a = self.prog.adts[self.prog.adt_of(fn.locals[t["dst"][0]])] if fn is not None and len(t["dst"]) == 1 else None
            if a is None:
                return None
            fields = tuple(("obj", n, f["n"]) for f in a["variants"][0]["f"])
            return [(st, ("adt", a["d"], 0, fields))]
        if name == "copy_from_slice" and len(args) == 2:
            dst = self.deep(st, args[0])
            st.trace.append(("fill", dst, self.deep(st, args[1])))
            return [(st, ("tup", ()))]
        if name in ("index", "index_mut") and len(args) == 2:
            v = self.deep(st, args[0])
            if v[0] == "obj":
                return [(st, ("part", v, self.deep(st, args[1])))]
        return super().model(name, callee, args, st, t, fn)


def machine_outcomes(prog, run, opadt, vi, value, sig, rels, payload=None):
    it = Machine(prog, sig, rels, opadt, vi, value)
    it.start(run, [("sym", "rt")] * run.nargs)
    res = []
    # the paths that come back to the loop head
    for st, fn, b in it.loops:
        if fn.id != run.id:
            continue
        pushes = [it.deep(st, x[1]) for x in st.trace if x[0] == "push"]
        pops = sum(1 for x in st.trace if x[0] == "pop")
        allocs = [x for x in st.trace if x[0] == "alloc"]
        fills = [x for x in st.trace if x[0] == "fill"]
        checks = [x for x in risky(st) if x[1] != "bounds"]
        bounds = [x for x in st.trace if x[0] == "assert" and x[1] == "bounds"]
        res.append((it, st, pushes, pops, allocs, fills, checks, bounds))
    return res, it


def judge_walk(prog, rep, root, value):
    n = 0
    for name, isop, sig, parts in cases():
        for pn, rels, kind, want in parts:
            key = "%s: %s, %s" % (root.id, name, pn)
            res, it = walk_outcomes(prog, root, value, name, isop, sig, rels)
            n += 1
            if not res:
                rep.ob(False, key, "no path produces a value", root.loc())
                continue
            for k, term, order, checks in res:
                rep.ob(k == kind and term == want, key,
                       "produces %s(%s), expected %s(%s)" % (k, show(term), kind, show(want)), root.loc())
                rep.ob(order == list(range(len(sig))), "%s: %s operands" % (root.id, name),
                       "operands are evaluated as %s" % order, root.loc())
                rep.ob(not checks, "%s: %s total" % (root.id, name),
                       "a %s check may fail" % (checks[0][1] if checks else ""), root.loc())
            bad = [d for d in it.diverged if any(x == ("eval", len(sig) - 1) for x in d[0].trace)]
            rep.ob(not bad, "%s: %s does not panic" % (root.id, name), "a path panics", root.loc())
    return n


def judge_machine(prog, rep, run, opadt, value, opname):
    names = {v["n"]: i for i, v in enumerate(prog.adts[opadt]["variants"])}
    n = 0
    # what a true and a false value look like
    bools = {}
    for b in (0, 1):
        it = Machine(prog, "", {}, opadt, names[opname["PushBool"]], value)
        base = it.simplify
        it.simplify = lambda t, st, b=b, base=base: ("c", b) if t[0] == "proj" and t[1][0] == "call" and \
            t[1][1] == "index" or t[0] == "proj" and t[1][0] == "proj" and t[1][1][0] == "call" else base(t, st)
        it.start(run, [("sym", "rt")] * run.nargs)
        ps = [[it.deep(st, x[1]) for x in st.trace if x[0] == "push"] for st, f, _ in it.loops if f.id == run.id]
        if len(ps) == 1 and len(ps[0]) == 1:
            bools[b] = ps[0][0]
    rep.ob(len(bools) == 2 and bools[0] != bools[1], run.id + ": booleans",
           "pushing a boolean constant does not push one of two distinct objects", run.loc())
    for name, isop, sig, parts in cases():
        vn = opname.get(name)
        if vn is None:
            rep.ob(False, "%s: %s" % (run.id, name), "no instruction", run.loc())
            continue
        for pn, rels, kind, want in parts:
            key = "%s: %s, %s" % (run.id, name, pn)
            res, it = machine_outcomes(prog, run, opadt, names[vn], value, sig, rels)
            n += 1
            if not res:
                rep.ob(False, key, "no path completes the instruction", run.loc())
                continue
            for it2, st, pushes, pops, allocs, fills, checks, bounds in res:
                rep.ob(pops == len(sig) and len(pushes) == 1, "%s: %s operands" % (run.id, name),
                       "pops %d and pushes %d values" % (pops, len(pushes)), run.loc())
                if len(pushes) != 1:
                    continue
                v = pushes[0]
                ok = False
                got = v
                vk = prog.adts[value]["variants"][v[2]]["n"] if v[0] == "adt" and v[1] == value else None
                if kind == "Bool":
                    ok = v == bools.get(want[1])
                elif kind == "Int" and vk == "Int":
                    got = canon(it2.norm(v[3][0]))
                    ok = got == want
                elif kind == "String" and vk == "Ptr":
                    got = built(it2, st, v[3][0], allocs, fills)
                    ok = got == want
                rep.ob(ok, key, "produces %s, expected %s(%s)" % (show(got), kind, show(want)), run.loc())
                left = [x for x in checks]
                rep.ob(not left, "%s: %s total" % (run.id, name), "a %s check may fail" % (left[0][1] if left else ""),
                       run.loc())
                idx = [x for x in bounds if not (x[2] and inside(it2, x))]
                rep.ob(not idx, "%s: %s bounds" % (run.id, name), "an index is not known to be in bounds", run.loc())
            bad = [d for d in it.diverged if d[1].id == run.id and sum(1 for x in d[0].trace if x[0] == "pop") >= len(sig)]
            rep.ob(not bad, "%s: %s does not panic" % (run.id, name), "a path panics", run.loc())
    return n


def inside(it, chk):
    """bounds assertions on the bytes of a string object, or on a fresh object"""
    L, i = chk[2][0], chk[2][1]
    for x in leaves(L):
        if x[0] == "bytes":
            return it.rel(it.norm(i), ("len", x[1])) == "lt"
        if x[0] == "obj" or x[0] == "part":
            return True
    return L[0] != "len" or it.rel(it.norm(i), L) == "lt"


def built(it, st, addr, allocs, fills):
    """the string an object was filled with: tag and size have to agree"""
    if addr[0] != "obj":
        return ("not the new object", addr)
    al = [a for a in allocs if a[1] == addr[1]]
    if len(al) != 1:
        return ("allocated", len(al))
    tag, size = it.norm(al[0][2]), it.norm(al[0][3])
    data = [f for f in fills if addr[1] in objs(f[1])]
    if len(data) == 1 and not written(st, addr[1]):
        x = data[0][2]
        dst = data[0][1]
        n = it.norm(it.length(x))
        nd = [n]
        if x[0] == "cat":
            nd.append(("len", x))
        rng = dst[2] if dst[0] == "part" else None
        if rng is None or rng[0] != "adt" or rng[1].split("::")[-1] != "RangeTo" or not same_len(it, rng[3][0], x):
            return ("filled at", rng)
    else:
        w = written(st, addr[1])
        if len(w) != 1 or data:
            return ("fills", len(data) + len(w))
        x = ("arr", (w[0],))
    mask = ("c", 0)
    size = unas(size)
    if not same_len(it, size, x):
        return ("size", size)
    tags = []
    if tag[0] == "bin" and tag[1] in ("BitOr", "Add"):
        tags = [tag[2], tag[3]]
    if tag[0] == "c":
        for s in it.string_tag:
            if tag[1] & s:
                tags = [("c", s), ("c", tag[1] & ~s)]
    ok = False
    for i, j in ((0, 1), (1, 0)):
        if len(tags) == 2 and tags[i][0] == "c" and tags[i][1] in it.string_tag and same_len(it, tags[j], x):
            ok = True
    if not ok:
        return ("tag", tag)
    return canon(x)


def unas(t):
    while t[0] == "un" and t[1].startswith("as "):
        t = t[2]
    return t


def same_len(it, n, x):
    n = unas(it.norm(n))
    if n == ("len", x) or n == it.norm(it.length(x)):
        return True
    return False


def objs(t):
    return {x[1] for x in leaves(t) if x[0] == "obj"}


def written(st, k):
    """single bytes stored into the object"""
    out = []
    for root, v in st.env.items():
        w = v
        if root[0] == "mem" and root[1][0] == "obj" and root[1][1] == k:
            while w[0] == "upd":
                if w[2] == (("i", ("c", 0)),):
                    out.append(w[3])
                else:
                    out.append(("sym", "elsewhere"))
                w = w[1]
    return out


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    return str(t)[:160]


def run(prog, rep):
    for a in (EXPR, OP, INTR):
        if a not in prog.adts:
            raise Anchor("type " + a)
    walkers = []
    for f in prog.fns.values():
        if f.crate != "ticc_eval" or f.kind != "fn" or f.derived:
            continue
        s = trav.main_switch(prog, f, EXPR)
        if not s or len(s[2]) < 12:
            continue
        r = prog.tstr(f.locals[0])
        if "Result<" in r or "dyn" in r:
            value = [d for d in prog.adts if d == "ticc_eval::Value"]
            walkers.append(f)
    rep.floor("interpreters over expressions", len(walkers), 2)
    n = 0
    for w in sorted(walkers, key=lambda f: f.id):
        n += judge_walk(prog, rep, w, "ticc_eval::Value")
    opadt = "ticc_eval::bytecode::Op"
    if opadt not in prog.adts:
        raise Anchor("type " + opadt)
    runs = [f for f in prog.fns.values() if f.kind == "fn" and not f.derived and
            len((trav.main_switch(prog, f, opadt) or (0, 0, {}))[2]) >= 20 and
            "Result<" in prog.tstr(f.locals[0])]
    if len(runs) != 1:
        raise Anchor("bytecode loop: found %d" % len(runs))
    from . import c04
    names = c04.bytecode_names(prog)
    n += judge_machine(prog, rep, runs[0], opadt, "ticc_eval::heap::Value", names)
    rep.floor("primitive cases", n, 90)
