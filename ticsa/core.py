"""Core programs as terms of this analysis: read from text, given to the value flow, taken back from it, checked
(binders, types) and compared by what they denote, for every value of what is unknown in them.

Expressions: ("bool", b) ("int", n) ("str", s) ("name", x) ("call", f, args) ("if", a, b, c) ("op", a, o, b)
("intr", i, args) ("lam", ((x, ty), ...), body) ("match", e, ((ctor, xs, body), ...)) ("con", ctor, tys, args)
("let", x, a, b) ("rec", x, ty, a, b) ("pi", v, e) ("inst", e, ty) ("trap", message, ty).
Types: "bool" "int" "str" ("var", v) ("named", n, args) ("fn", args, out) ("abs", v, ty)."""
import re
from .irval import Values, IR
from .front import NONE, some
from .mir import Anchor

OPS = {"+": "Add", "-": "Subtract", "*": "Multiply", "/": "Divide", "%": "Modulo", "<": "Less", "<=": "LessEq", ">": "Greater",
       ">=": "GreaterEq", "==": "Equal", "!=": "NotEqual"}
INTR = {"len": "StringLen", "concat": "StringConcat", "char": "StringCharAt", "sub": "StringSubstring", "from": "StringFromChar",
        "show": "IntToString"}
SIG = {"StringLen": (("str",), "int"), "StringConcat": (("str", "str"), "str"), "StringCharAt": (("int", "str"), "int"),
       "StringSubstring": (("int", "int", "str"), "str"), "StringFromChar": (("int",), "str"), "IntToString": (("int",), "str")}


# ---- text
def sexps(text):
    stack = [[]]
    for tok in re.findall(r'"[^"]*"|[()]|[^\s()"]+', text):
        if tok == "(":
            stack.append([])
        elif tok == ")":
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(tok)
    if len(stack) != 1:
        raise ValueError("parentheses: " + text[:60])
    return stack[0]


class Reader:
    """program text with names as written to a program with numbered names"""

    def __init__(self, text):
        self.names, self.vars, self.ids = [], [], {}
        self.types, self.defs = [], []
        for x in sexps(text):
            if x[0] == "type":
                head = x[1] if isinstance(x[1], list) else [x[1]]
                self.types.append((self.bind(head[0]), tuple(self.var(v) for v in head[1:]),
                                   tuple((self.bind(c[0]), tuple(self.ty(t) for t in c[1:])) for c in x[2:])))
            else:
                v = self.expr(x[3])
                self.defs.append((self.bind(x[1]), x[1] if x[0] == "export" else None, self.ty(x[2]), v))

    def bind(self, n):
        self.names.append(n)
        self.ids[n] = len(self.names) - 1
        return self.ids[n]

    def var(self, v):
        if v not in self.vars:
            self.vars.append(v)
        return self.vars.index(v)

    def ty(self, t):
        if isinstance(t, str):
            if t.startswith("'"):
                return ("var", self.var(t))
            return t if t in ("bool", "int", "str") else ("named", self.ids[t], ())
        if t[0] == "->":
            return ("fn", tuple(self.ty(x) for x in t[1:-1]), self.ty(t[-1]))
        if t[0] == "all":
            return ("abs", self.var(t[1]), self.ty(t[2]))
        return ("named", self.ids[t[0]], tuple(self.ty(x) for x in t[1:]))

    def expr(self, e):
        if isinstance(e, str):
            if e in ("true", "false"):
                return ("bool", int(e == "true"))
            if e[0] == '"':
                return ("str", e[1:-1])
            return ("int", int(e)) if e.isdigit() else ("name", self.ids[e])
        k = e[0]
        if isinstance(k, str):
            if k == "fn":
                ps = tuple((self.bind(n), self.ty(t)) for n, t in zip(e[1][::2], e[1][1::2]))
                return ("lam", ps, self.expr(e[2]))
            if k == "let":
                v = self.expr(e[2])
                return ("let", self.bind(e[1]), v, self.expr(e[3]))
            if k == "rec":
                n = self.bind(e[1])
                return ("rec", n, self.ty(e[2]), self.expr(e[3]), self.expr(e[4]))
            if k == "if":
                return ("if",) + tuple(self.expr(x) for x in e[1:])
            if k == "match":
                d = self.expr(e[1])
                bs = []
                for pat, body in e[2:]:
                    pat = pat if isinstance(pat, list) else [pat]
                    bs.append((self.ids[pat[0]], tuple(self.bind(n) for n in pat[1:]), self.expr(body)))
                return ("match", d, tuple(bs))
            if k == "new":
                return ("con", self.ids[e[1]], tuple(self.ty(t) for t in e[2]), tuple(self.expr(x) for x in e[3:]))
            if k == "pi":
                return ("pi", self.var(e[1]), self.expr(e[2]))
            if k == "at":
                return ("inst", self.expr(e[1]), self.ty(e[2]))
            if k == "trap":
                return ("trap", e[1][1:-1], self.ty(e[2]))
            if k in OPS:
                return ("op", self.expr(e[1]), OPS[k], self.expr(e[2]))
            if k in INTR:
                return ("intr", INTR[k], tuple(self.expr(x) for x in e[1:]))
        return ("call", self.expr(k), tuple(self.expr(x) for x in e[1:]))

    def program(self):
        return {"names": tuple(self.names), "next": len(self.vars), "types": tuple(self.types), "defs": tuple(self.defs)}


# ---- to and from the values of the analysis
class Bridge:
    def __init__(self, prog, box=lambda st, v: v):
        self.prog, self.v, self.box = prog, Values(prog), box
        self.vn = {d: [x["n"] for x in prog.adts[d]["variants"]] for d in self.v.vi}

    def ty(self, st, t):
        v, go = self.v, lambda x: self.ty(st, x)
        if isinstance(t, str):
            return v.ty({"bool": "Bool", "int": "Int", "str": "String"}[t])
        if t[0] == "var":
            return v.ty("Var", v.var(t[1]))
        if t[0] == "named":
            return v.ty("Named", v.name(t[1]), ("arr", tuple(go(x) for x in t[2])))
        if t[0] == "fn":
            return v.ty("Fn", ("arr", tuple(go(x) for x in t[1])), self.box(st, go(t[2])))
        return v.ty("Abs", v.var(t[1]), self.box(st, go(t[2])))

    def expr(self, st, e):
        v = self.v
        go = lambda x: self.expr(st, x)
        b = lambda x: self.box(st, go(x))
        many = lambda xs: ("arr", tuple(go(x) for x in xs))
        ty = lambda t: self.ty(st, t)
        k = e[0]
        if k == "bool":
            return v.expr("Bool", ("c", e[1]))
        if k == "int":
            return v.expr("Int", ("c", e[1]))
        if k == "str":
            return v.expr("String", v.bytes(("s", e[1])))
        if k == "name":
            return v.expr("Name", v.name(e[1]))
        if k == "call":
            return v.expr("Call", b(e[1]), many(e[2]))
        if k == "if":
            return v.expr("If", *[b(x) for x in e[1:]])
        if k == "op":
            return v.expr("Op", b(e[1]), v.op(e[2]), b(e[3]))
        if k == "intr":
            return v.expr("Intrinsic", v.of(IR + "Intrinsic", e[1]), many(e[2]))
        if k == "lam":
            return v.expr("Lambda", ("arr", tuple(v.param(v.name(n), ty(t)) for n, t in e[1])), b(e[2]))
        if k == "match":
            return v.expr("Match", b(e[1]), ("arr", tuple(v.branch(v.name(c), [v.name(x) for x in xs], go(x)) for c, xs, x in e[2])))
        if k == "con":
            return v.expr("Construct", v.name(e[1]), ("arr", tuple(ty(t) for t in e[2])), many(e[3]))
        if k == "let":
            return v.expr("Let", v.name(e[1]), b(e[2]), b(e[3]))
        if k == "rec":
            return v.expr("LetRec", v.name(e[1]), ty(e[2]), b(e[3]), b(e[4]))
        if k == "pi":
            return v.expr("Pi", v.var(e[1]), b(e[2]))
        if k == "inst":
            return v.expr("PiApply", b(e[1]), ty(e[2]))
        return v.expr("Trap", ("s", e[1]), ty(e[2]))

    def program(self, st, p):
        v = self.v
        defs = [v.definition(v.name(n), self.ty(st, t), self.expr(st, e), None if x is None else ("s", x)) for n, x, t, e in p["defs"]]
        types = [v.struct(IR + "TyDef", name=v.name(n), vars=("arr", tuple(v.var(x) for x in vs)),
                          cases=("arr", tuple(v.struct(IR + "TyCase", name=v.name(c), fields=("arr", tuple(self.ty(st, t) for t in fs)))
                                              for c, fs in cs))) for n, vs, cs in p["types"]]
        gen = v.wrap(IR + "TyGenerator", v.var(p["next"]))
        return v.struct(IR + "Program", names=v.names(p["names"]), ty=gen, defs=("arr", tuple(defs)), types=("arr", tuple(types)))

    # back
    def num(self, x):
        while x[0] == "adt" and len(x[3]) == 1:
            x = x[3][0]
        if x[0] != "c":
            raise Anchor("no number: " + str(x)[:80])
        return x[1]

    def text(self, x):
        while x[0] == "adt" and len(x[3]) == 1:
            x = x[3][0]
        if x[0] == "call" and x[1] == "join" and len(x) == 2 or x == ("vecnew",) or x == ("arr", ()):
            return ""
        if x[0] != "s":
            from .text import known
            k = known(x)
            if k is None:
                raise Anchor("no text: " + str(x)[:80])
            return k
        return x[1]

    def seq(self, x):
        if x == ("vecnew",):
            return ()
        if x[0] != "arr":
            raise Anchor("no list: " + str(x)[:80])
        return x[1]

    def kind(self, d, x):
        if x[0] != "adt" or x[1] != IR + d:
            raise Anchor("no %s: %s" % (d, str(x)[:80]))
        return self.vn[IR + d][x[2]]

    def fields(self, x):
        return {f["n"]: y for f, y in zip(self.prog.adts[x[1]]["variants"][0]["f"], x[3])}

    def un_ty(self, x):
        k, a = self.kind("Ty", x), x[3]
        if k in ("Bool", "Int", "String"):
            return {"Bool": "bool", "Int": "int", "String": "str"}[k]
        if k == "Var":
            return ("var", self.num(a[0]))
        if k == "Named":
            return ("named", self.num(a[0]), tuple(self.un_ty(y) for y in self.seq(a[1])))
        if k == "Fn":
            return ("fn", tuple(self.un_ty(y) for y in self.seq(a[0])), self.un_ty(a[1]))
        return ("abs", self.num(a[0]), self.un_ty(a[1]))

    def un_expr(self, x):
        k, a = self.kind("Expr", x), x[3]
        go, n, ty, seq = self.un_expr, self.num, self.un_ty, self.seq
        if k == "Bool":
            return ("bool", n(a[0]))
        if k == "Int":
            return ("int", n(a[0]))
        if k == "String":
            return ("str", self.text(a[0]))
        if k == "Name":
            return ("name", n(a[0]))
        if k == "Call":
            return ("call", go(a[0]), tuple(go(y) for y in seq(a[1])))
        if k == "If":
            return ("if",) + tuple(go(y) for y in a)
        if k == "Op":
            return ("op", go(a[0]), self.kind("Op", a[1]), go(a[2]))
        if k == "Intrinsic":
            return ("intr", self.kind("Intrinsic", a[0]), tuple(go(y) for y in seq(a[1])))
        if k == "Lambda":
            ps = [self.fields(p) for p in seq(a[0])]
            return ("lam", tuple((n(p["name"]), ty(p["ty"])) for p in ps), go(a[1]))
        if k == "Match":
            bs = [self.fields(b) for b in seq(a[1])]
            return ("match", go(a[0]), tuple((n(b["ctor"]), tuple(n(y) for y in seq(b["bindings"])), go(b["value"])) for b in bs))
        if k == "Construct":
            return ("con", n(a[0]), tuple(ty(t) for t in seq(a[1])), tuple(go(y) for y in seq(a[2])))
        if k == "Let":
            return ("let", n(a[0]), go(a[1]), go(a[2]))
        if k == "LetRec":
            return ("rec", n(a[0]), ty(a[1]), go(a[2]), go(a[3]))
        if k == "Pi":
            return ("pi", n(a[0]), go(a[1]))
        if k == "PiApply":
            return ("inst", go(a[0]), ty(a[1]))
        return ("trap", self.text(a[0]), ty(a[1]))

    def un_program(self, x):
        f = self.fields(x)
        defs = []
        for d in self.seq(f["defs"]):
            g = self.fields(d)
            e = g["export_name"]
            defs.append((self.num(g["name"]), self.text(e[3][0]) if e[2] else None, self.un_ty(g["ty"]), self.un_expr(g["value"])))
        types = []
        for d in self.seq(f["types"]):
            g = self.fields(d)
            cs = [self.fields(c) for c in self.seq(g["cases"])]
            types.append((self.num(g["name"]), tuple(self.num(v) for v in self.seq(g["vars"])),
                          tuple((self.num(c["name"]), tuple(self.un_ty(t) for t in self.seq(c["fields"]))) for c in cs)))
        names = f["names"]
        while names[0] == "adt":
            names = names[3][0]
        return {"names": tuple(self.text(n) for n in self.seq(names)), "next": self.num(f["ty"]), "types": tuple(types), "defs": tuple(defs)}


# ---- binders and types
class Bad(Exception):
    pass


def subst(t, m):
    if isinstance(t, str):
        return t
    if t[0] == "var":
        return m.get(t[1], t)
    if t[0] == "named":
        return ("named", t[1], tuple(subst(x, m) for x in t[2]))
    if t[0] == "fn":
        return ("fn", tuple(subst(x, m) for x in t[1]), subst(t[2], m))
    return ("abs", t[1], subst(t[2], {k: v for k, v in m.items() if k != t[1]}))


def alike(a, b, pairs=()):
    """types equal up to the names of their variables"""
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a[0] != b[0]:
        return False
    if a[0] == "var":
        for x, y in reversed(pairs):
            if x == a[1] or y == b[1]:
                return x == a[1] and y == b[1]
        return a == b
    if a[0] == "named":
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(alike(x, y, pairs) for x, y in zip(a[2], b[2]))
    if a[0] == "fn":
        return len(a[1]) == len(b[1]) and all(alike(x, y, pairs) for x, y in zip(a[1], b[1])) and alike(a[2], b[2], pairs)
    return alike(a[2], b[2], pairs + ((a[1], b[1]),))


class Checker:
    """raises Bad at what is wrong with a program"""

    def __init__(self, p):
        self.p = p
        self.bound, self.tybound, self.scope = set(), set(), set()
        self.types, self.ctors, self.kinds = {}, {}, {}
        for n, vs, cs in p["types"]:
            self.bind(n)
            self.kinds[n] = len(vs)
            for v in vs:
                self.bind_ty(v)
            for c, fs in cs:
                self.bind(c)
                for t in fs:
                    self.ty(t)
                self.ctors[c] = (n, vs, fs)
            self.scope -= set(vs)
        for n, x, t, e in p["defs"]:
            self.ty(t)
            got = self.expr(e)
            if not alike(got, t):
                raise Bad("a definition has another type than it says")
            self.bind(n)
            self.types[n] = t

    def bind(self, n):
        if n in self.bound:
            raise Bad("a name is bound twice")
        if n >= len(self.p["names"]):
            raise Bad("a name was not generated")
        self.bound.add(n)

    def bind_ty(self, v):
        if v in self.tybound:
            raise Bad("a type variable is bound twice")
        if v >= self.p["next"]:
            raise Bad("a type variable was not generated")
        self.tybound.add(v)
        self.scope.add(v)

    def ty(self, t):
        if isinstance(t, str):
            return
        if t[0] == "var":
            if t[1] not in self.scope:
                raise Bad("a type variable is not in scope")
        elif t[0] == "named":
            if self.kinds.get(t[1]) != len(t[2]):
                raise Bad("a type is unknown or has the wrong number of arguments")
            for x in t[2]:
                self.ty(x)
        elif t[0] == "fn":
            for x in t[1] + (t[2],):
                self.ty(x)
        else:
            self.bind_ty(t[1])
            self.ty(t[2])
            self.scope.discard(t[1])

    def expect(self, got, want, what):
        if not alike(got, want):
            raise Bad(what)

    def within(self, binds, e):
        for n, t in binds:
            self.bind(n)
            self.types[n] = t
        r = self.expr(e)
        for n, t in binds:
            del self.types[n]
        return r

    def expr(self, e):
        k = e[0]
        if k in ("bool", "int", "str"):
            return k
        if k == "name":
            if e[1] not in self.types:
                raise Bad("a name is not in scope")
            return self.types[e[1]]
        if k == "call":
            f = self.expr(e[1])
            if f[0] != "fn" or len(f[1]) != len(e[2]):
                raise Bad("what is called is no function of as many arguments")
            for x, t in zip(e[2], f[1]):
                self.expect(self.expr(x), t, "an argument has the wrong type")
            return f[2]
        if k == "if":
            self.expect(self.expr(e[1]), "bool", "a condition is no bool")
            t = self.expr(e[2])
            self.expect(self.expr(e[3]), t, "the branches of an if have different types")
            return t
        if k == "op":
            self.expect(self.expr(e[1]), "int", "an operand is no int")
            self.expect(self.expr(e[3]), "int", "an operand is no int")
            return "int" if e[2] in ("Add", "Subtract", "Multiply", "Divide", "Modulo") else "bool"
        if k == "intr":
            ps, out = SIG[e[1]]
            if len(ps) != len(e[2]):
                raise Bad("an intrinsic has the wrong number of arguments")
            for x, t in zip(e[2], ps):
                self.expect(self.expr(x), t, "an argument of an intrinsic has the wrong type")
            return out
        if k == "lam":
            for n, t in e[1]:
                self.ty(t)
            return ("fn", tuple(t for n, t in e[1]), self.within(e[1], e[2]))
        if k == "match":
            d = self.expr(e[1])
            if d[0] != "named" or not e[2]:
                raise Bad("what is matched is of no named type")
            want = {c for c, x in self.ctors.items() if x[0] == d[1]}
            out = None
            for c, xs, b in e[2]:
                if c not in want:
                    raise Bad("a branch of a match is of another type, or there twice")
                want.discard(c)
                n, vs, fs = self.ctors[c]
                if len(fs) != len(xs):
                    raise Bad("a branch binds the wrong number of fields")
                t = self.within(tuple(zip(xs, (subst(f, dict(zip(vs, d[2]))) for f in fs))), b)
                if out is not None:
                    self.expect(t, out, "the branches of a match have different types")
                out = t
            if want:
                raise Bad("a match misses a constructor")
            return out
        if k == "con":
            if e[1] not in self.ctors:
                raise Bad("an unknown constructor")
            n, vs, fs = self.ctors[e[1]]
            if len(vs) != len(e[2]) or len(fs) != len(e[3]):
                raise Bad("a constructor has the wrong number of arguments")
            for t in e[2]:
                self.ty(t)
            for x, t in zip(e[3], fs):
                self.expect(self.expr(x), subst(t, dict(zip(vs, e[2]))), "a field has the wrong type")
            return ("named", n, e[2])
        if k == "let":
            return self.within(((e[1], self.expr(e[2])),), e[3])
        if k == "rec":
            self.ty(e[2])
            self.bind(e[1])
            self.types[e[1]] = e[2]
            self.expect(self.expr(e[3]), e[2], "a recursive function has another type than it says")
            r = self.expr(e[4])
            del self.types[e[1]]
            return r
        if k == "pi":
            self.bind_ty(e[1])
            t = self.expr(e[2])
            self.scope.discard(e[1])
            return ("abs", e[1], t)
        if k == "inst":
            t = self.expr(e[1])
            if t[0] != "abs":
                raise Bad("what is given a type takes none")
            self.ty(e[2])
            return subst(t[2], {t[1]: e[2]})
        self.ty(e[2])
        return e[2]


def wrong(p):
    """what is wrong with a program, or None"""
    try:
        Checker(p)
        return None
    except Bad as e:
        return str(e)


# ---- what programs denote, for every value of the unknown
class Trap(Exception):
    pass


class Deep(Exception):
    def __init__(self, run):
        self.run = run


class Ask(Exception):
    def __init__(self, term, ways):
        self.term, self.ways = term, ways


class Run:
    """call by value with unknown values; what may fail or not end is an event"""

    def __init__(self, decided, fuel=1500):
        self.decided, self.fuel, self.events = decided, fuel, set()
        self.asked = set()

    def decide(self, term, ways):
        if term not in self.decided:
            raise Ask(term, ways)
        self.asked.add(term)
        return self.decided[term]

    def run(self, e, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Deep(self)
        k = e[0]
        if k in ("bool", "int", "str"):
            return e
        if k == "name":
            v = env[e[1]]
            return v[0] if isinstance(v, list) else v
        if k == "call":
            f = self.run(e[1], env)
            return self.apply(f, [self.run(x, env) for x in e[2]])
        if k == "if":
            return self.run(e[2] if self.truth(self.run(e[1], env)) else e[3], env)
        if k == "op":
            return self.op(e[2], self.run(e[1], env), self.run(e[3], env))
        if k == "intr":
            args = tuple(self.run(x, env) for x in e[2])
            t = ("intr", e[1]) + tuple(self.reify(a) for a in args)
            if e[1] in ("StringCharAt", "StringSubstring", "StringFromChar"):
                self.events.add(t)
            return ("term", t)
        if k == "lam":
            return ("clo", tuple(n for n, _ in e[1]), e[2], env)
        if k == "match":
            d = self.run(e[1], env)
            for c, xs, b in e[2]:
                if d[0] == "con":
                    if d[1] == c:
                        return self.run(b, {**env, **dict(zip(xs, d[2]))})
                else:
                    t = self.reify(d)
                    if self.decide(("is", t), tuple(c for c, _, _ in e[2])) == c:
                        return self.run(b, {**env, **{x: ("term", ("field", t, c, i)) for i, x in enumerate(xs)}})
            raise Trap("no branch")
        if k == "con":
            return ("con", e[1], tuple(self.run(x, env) for x in e[3]))
        if k == "let":
            return self.run(e[3], {**env, e[1]: self.run(e[2], env)})
        if k == "rec":
            cell = []
            env = {**env, e[1]: cell}
            cell.append(self.run(e[3], env))
            return self.run(e[4], env)
        if k in ("pi",):
            return self.run(e[2], env)
        if k == "inst":
            return self.run(e[1], env)
        raise Trap(e[1])

    def truth(self, v):
        if v[0] == "bool":
            return bool(v[1])
        return bool(self.decide(self.reify(v), (1, 0)))

    def op(self, o, a, b):
        if a[0] == b[0] == "int":
            x, y = a[1], b[1]
            if o in ("Divide", "Modulo"):
                if y == 0:
                    raise Trap("division")
                return ("int", x // y if o == "Divide" else x % y)
            r = {"Add": x + y, "Subtract": x - y, "Multiply": x * y}.get(o)
            if r is not None:
                return ("int", r % 2 ** 64)
            return ("bool", int({"Less": x < y, "LessEq": x <= y, "Greater": x > y, "GreaterEq": x >= y, "Equal": x == y,
                                 "NotEqual": x != y}[o]))
        t = ("op", o, self.reify(a), self.reify(b))
        if o in ("Divide", "Modulo"):
            self.events.add(t)
        return ("term", t)

    def apply(self, f, args):
        self.fuel -= 1
        if self.fuel < 0:
            raise Deep(self)
        if f[0] == "clo":
            if len(f[1]) != len(args):
                raise Trap("arguments")
            return self.run(f[2], {**f[3], **dict(zip(f[1], args))})
        self.work += not self.level
        t = ("app", self.reify(f)) + tuple(self.reify(a) for a in args)
        self.events.add(t)
        return ("term", t)

    level = 0  # of functions whose text is looked at
    work = 0  # calls of what is not known

    def reify(self, v):
        if v[0] == "term":
            return v[1]
        if v[0] == "con":
            return ("con", v[1]) + tuple(self.reify(x) for x in v[2])
        if v[0] == "clo":
            self.level += 1
            kept = set(self.events)
            try:
                r = self.reify(self.apply(v, [("term", ("arg", self.level, i)) for i in range(len(v[1]))]))
            except Trap as e:
                r = ("trap", str(e))
            self.level -= 1
            self.events = kept
            return ("fun", len(v[1]), r)
        return v


def curried(t):
    """argument types and result of a type, however its arguments are grouped"""
    while t[0] == "abs":
        t = t[2]
    out = []
    while t[0] == "fn":
        out.append(len(t[1]))
        t = t[2]
    return out, t


def flat(t):
    """the type with the arguments of functions one by one at its top"""
    if t[0] == "abs":
        return ("abs", t[1], flat(t[2]))
    if t[0] == "fn":
        r = flat(t[2])
        for a in reversed(t[1]):
            r = ("fn", (a,), r)
        return r
    return t


class Unlike(Exception):
    pass


def agree(a, b, x, y, ea, eb, level=0):
    """what y has to do that x does not, or a difference: raises Unlike. a, b: the runs"""
    if x[0] == "clo" or y[0] == "clo":
        if x[0] == y[0] and len(x[1]) != len(y[1]):
            raise Unlike("a function takes its arguments in other groups")
        n = len(x[1]) if x[0] == "clo" else len(y[1])
        args = [("term", ("arg", "r%d" % level, i)) for i in range(n)]
        a.events, b.events = set(ea), set(eb)
        try:
            r = a.apply(x, args)
        except Trap:
            return
        try:
            s = b.apply(y, args)
        except Trap:
            raise Unlike("a function fails that gave a result")
        if not b.events <= a.events:
            raise Unlike("a function does what may fail and was not done before")
        return agree(a, b, r, s, set(a.events), set(b.events), level + 1)
    if x[0] == y[0] == "con":
        if x[1] != y[1] or len(x[2]) != len(y[2]):
            raise Unlike("the values are made by different constructors")
        for p, q in zip(x[2], y[2]):
            agree(a, b, p, q, ea, eb, level + 1)
        return
    if a.reify(x) != b.reify(y):
        raise Unlike("the values differ")


def observe(run, p, name):
    """an exported value, applied to as many unknown arguments as it takes"""
    env = {}
    for n, x, t, e in p["defs"]:
        env[n] = run.run(e, env)
        if x == name:
            groups, _ = curried(t)
            v, i = env[n], 0
            for g in groups:
                v = run.apply(v, [("term", ("in", i + j)) for j in range(g)])
                i += g
            return v
    raise Trap("not exported")


def differ(p, q, limit=400):
    """(paths compared, what differs): the second program computes what the first does"""
    n = 0
    for d, (_, name, ty, _) in enumerate(p["defs"]):
        if name is None:
            continue
        other = [t for _, x, t, _ in q["defs"] if x == name]
        if len(other) != 1:
            return n, "%s is exported %d times" % (name, len(other))
        if not alike(flat(ty), flat(other[0])):
            return n, name + " is exported with another type"
        work = [{}]
        good = 0
        while work:
            dec = work.pop()
            limit -= 1
            if limit < 0:
                raise Anchor("too many paths of " + name)
            a, b = Run(dec), Run(dec, 6000)
            try:
                try:
                    x = observe(a, p, name)
                except Trap:
                    n += 1
                    continue
                try:
                    y = observe(b, q, name)
                except Trap as t:
                    return n, "%s fails (%s), which it did not" % (name, t)
                if not b.events <= a.events:
                    return n, "%s does what may fail and was not done before" % name
                if b.work > a.work:
                    return n, "%s calls a function it takes more often" % name
                ea, eb = set(a.events), set(b.events)
                agree(a, b, x, y, ea, eb)
                n += 1
                good += 1
            except Ask as q2:
                for w in q2.ways:
                    work.append({**dec, q2.term: w})
            except Unlike as u:
                return n, "%s: %s" % (name, u)
            except Deep as t:
                if t.run is b:
                    return n, name + " does not end, or takes much longer"
                n += 1
        if not good:
            raise Anchor("nothing known about " + name)
    extra = {x for _, x, _, _ in q["defs"] if x} - {x for _, x, _, _ in p["defs"] if x}
    return n, "%s is exported, which it was not" % sorted(extra)[0] if extra else None


def show(p):
    def nm(i):
        return "%s%d" % (p["names"][i], i) if i < len(p["names"]) else "?%d" % i

    def ty(t):
        if isinstance(t, str):
            return t
        if t[0] == "var":
            return "'%d" % t[1]
        if t[0] == "named":
            return "(%s)" % " ".join([nm(t[1])] + [ty(x) for x in t[2]])
        if t[0] == "fn":
            return "(-> %s)" % " ".join([ty(x) for x in t[1]] + [ty(t[2])])
        return "(all '%d %s)" % (t[1], ty(t[2]))

    def ex(e):
        k = e[0]
        if k in ("bool", "int", "str"):
            return str(e[1])
        if k == "name":
            return nm(e[1])
        if k == "call":
            return "(%s)" % " ".join(ex(x) for x in (e[1],) + e[2])
        if k == "lam":
            return "(fn (%s) %s)" % (" ".join("%s %s" % (nm(n), ty(t)) for n, t in e[1]), ex(e[2]))
        if k == "match":
            return "(match %s %s)" % (ex(e[1]), " ".join("((%s) %s)" % (" ".join(nm(x) for x in (c,) + xs), ex(b)) for c, xs, b in e[2]))
        if k == "con":
            return "(new %s (%s) %s)" % (nm(e[1]), " ".join(ty(t) for t in e[2]), " ".join(ex(x) for x in e[3]))
        if k == "let":
            return "(let %s %s %s)" % (nm(e[1]), ex(e[2]), ex(e[3]))
        if k == "rec":
            return "(rec %s %s %s %s)" % (nm(e[1]), ty(e[2]), ex(e[3]), ex(e[4]))
        if k == "pi":
            return "(pi '%d %s)" % (e[1], ex(e[2]))
        if k == "inst":
            return "(at %s %s)" % (ex(e[1]), ty(e[2]))
        if k == "trap":
            return "(trap %s)" % e[1]
        if k == "op":
            return "(%s %s %s)" % (e[2], ex(e[1]), ex(e[3]))
        return "(%s)" % " ".join(ex(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                                 " ".join(ex(y) for y in x) if isinstance(x, tuple) else str(x) for x in e)
    return "\n".join("%s%s : %s = %s" % ("export " if x else "", nm(n), ty(t), ex(e)) for n, x, t, e in p["defs"])
