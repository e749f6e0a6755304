"""C26: what is shown of types and of translated programs reads back as what it is."""
import os
import re
from concurrent.futures import ProcessPoolExecutor
from multiprocessing import get_context
from ..mir import Anchor
from ..absint import State
from ..heap import Heap
from ..machine import bounded, lean
from ..text import known
from ..core import Bridge, OPS, INTR
from ..irval import IR
from .c09 import UNIT


RULE = ("the text printed for a program, whatever stands where in it to a depth of three, reads back by the grammar of printed programs as "
        "that program; the text shown for a type, whatever stands where in it to a depth of three, reads back by the grammar of types as "
        "that type, with the names of the definitions; a message is its parts in order")
ASSUMPTIONS = []


class Printed(Bridge):
    def expr(self, st, e):
        if e[0] == "str":
            return self.v.expr("String", self.v.bytes(("arr", tuple(("c", b) for b in e[1]))))
        return super().expr(st, e)


# ---- printed programs
class Unread(Exception):
    pass


TOKEN = re.compile(r'\s+|(?P<str>"(?:[^"\\]|\\.)*")|(?P<name>[A-Za-z_$][A-Za-z_0-9$]*)|(?P<num>\d+)|(?P<op>->|==|!=|<=|>=|%[a-zA-Z]+|#trap|.)',
                   re.S)
BY_NAME = {"%" + v[0].lower() + v[1:]: v for v in INTR.values()}


def unquoted(s):
    out, i = b"", 1
    while i < len(s) - 1:
        c = s[i]
        if c != "\\":
            out += c.encode()
            i += 1
            continue
        d = s[i + 1]
        i += 2
        if d == "x":
            out += bytes([int(s[i:i + 2], 16)])
            i += 2
        elif d == "u":
            j = s.index("}", i)
            out += chr(int(s[i + 1:j], 16)).encode()
            i = j + 1
        elif d in "\"\\'nrt0":
            out += {"n": b"\n", "r": b"\r", "t": b"\t", "0": b"\0"}.get(d, d.encode())
        else:
            raise Unread("escape " + d)
    return out


class Reading:
    """the grammar of printed programs"""

    def __init__(self, text):
        self.toks = []
        for m in TOKEN.finditer(text):
            if m.lastgroup:
                self.toks.append((m.lastgroup, m.group()))
        self.toks.append(("end", ""))
        self.i = 0

    def at(self, t):
        return self.toks[self.i][1] == t and self.toks[self.i][0] != "str"

    def take(self):
        self.i += 1
        return self.toks[self.i - 1]

    def eat(self, t):
        if self.at(t):
            self.i += 1
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise Unread("%s where %s should be" % (self.toks[self.i][1] or "the end", t))

    def name(self):
        k, s = self.take()
        m = re.match(r"(.+)_(\d+)$", s)
        if k != "name" or not m:
            raise Unread("no name: " + s)
        return (m.group(1), int(m.group(2)))

    def tyvar(self):
        k, s = self.take()
        m = re.match(r"t(\d+)$", s)
        if k != "name" or not m:
            raise Unread("no type variable: " + s)
        return int(m.group(1))

    def many(self, end, f):
        out = []
        while not self.eat(end):
            if out:
                self.need(",")
            out.append(f())
        return tuple(out)

    def program(self):
        out = []
        while not self.at(""):
            ex = None
            if self.eat("export"):
                self.need("(")
                k, s = self.take()
                if k != "str":
                    raise Unread("no text")
                ex = unquoted(s).decode()
                self.need(")")
            self.need("let")
            n = self.name()
            self.need(":")
            t = self.ty()
            self.need("=")
            out.append((n, ex, t, self.expr()))
            self.need(";")
        return tuple(out)

    def ty_atom(self):
        if self.eat("("):
            xs = self.many(")", self.ty)
            if self.at("->") or len(xs) != 1:
                self.need("->")
                return ("fn", xs, self.ty())
            return xs[0]
        k, s = self.toks[self.i]
        if k != "name":
            raise Unread("no type: " + s)
        if s in ("bool", "int", "string"):
            self.i += 1
            return {"string": "str"}.get(s, s)
        if re.match(r"t\d+$", s):
            return ("var", self.tyvar())
        return ("named", self.name(), ())

    def starts_ty(self):
        k, s = self.toks[self.i]
        return s == "(" or k == "name" and (s in ("bool", "int", "string") or re.match(r"t\d+$|.+_\d+$", s))

    def ty(self):
        if self.eat("for"):
            v = self.tyvar()
            self.need(".")
            return ("abs", v, self.ty())
        k, s = self.toks[self.i]
        t = self.ty_atom()
        if s != "(" and t[0] == "named":
            args = []
            while self.starts_ty():
                args.append(self.argument())
            return t[:2] + (tuple(args),)
        return t

    def argument(self):
        if self.eat("("):
            t = self.ty()
            self.need(")")
            return t
        return self.ty_atom()

    def expr(self):
        if self.eat("let"):
            rec = self.eat("rec")
            n = self.name()
            t = None
            if rec:
                self.need(":")
                t = self.ty()
            self.need("=")
            v = self.expr()
            self.need(";")
            b = self.expr()
            return ("rec", n, t, v, b) if rec else ("let", n, v, b)
        if self.eat("if"):
            a = self.expr()
            self.need("then")
            b = self.expr()
            self.need("else")
            return ("if", a, b, self.expr())
        if self.eat("match"):
            d = self.expr()
            self.need("with")
            bs = []
            while self.eat("|"):
                self.need("@")
                c = self.name()
                xs = []
                while not self.eat("->"):
                    xs.append(self.name())
                bs.append((c, tuple(xs), self.expr()))
            self.need("end")
            return self.operators(self.postfix(("match", d, tuple(bs))))
        if self.eat("Pi"):
            v = self.tyvar()
            self.need("->")
            return ("pi", v, self.expr())
        if self.eat("\\"):
            self.need("(")
            ps = self.many(")", self.param)
            self.need("->")
            return ("lam", ps, self.expr())
        return self.operators(self.postfix(self.atom()))

    def param(self):
        n = self.name()
        self.need(":")
        return (n, self.ty())

    LEVELS = ("< <= > >= == !=".split(), "+ -".split(), "* / %".split())

    def operators(self, first):
        """an operand that is more than one has parentheses; of operators of a level the first binds tighter, comparisons do not chain"""
        items = [first]
        while self.toks[self.i][0] == "op" and self.toks[self.i][1] in OPS:
            items.append(OPS[self.take()[1]])
            items.append(self.postfix(self.atom()))
        for level in reversed(self.LEVELS):
            names = {OPS[o] for o in level}
            out, n = [items[0]], 0
            for o, x in zip(items[1::2], items[2::2]):
                if o in names:
                    out[-1] = ("op", out[-1], o, x)
                    n += 1
                else:
                    out += [o, x]
            if level[0] == "<" and n > 1:
                raise Unread("comparisons one after another")
            items = out
        return items[0]

    def postfix(self, e):
        while True:
            if self.eat("("):
                e = ("call", e, self.many(")", self.expr))
            elif self.eat("["):
                e = ("inst", e, self.ty())
                self.need("]")
            else:
                return e

    def atom(self):
        k, s = self.toks[self.i]
        if self.eat("("):
            e = self.expr()
            self.need(")")
            return e
        if self.eat("@"):
            c = self.name()
            tys = self.many("]", self.ty) if self.eat("[") else ()
            self.need("(")
            return ("con", c, tys, self.many(")", self.expr))
        if self.eat("#trap"):
            self.need("(")
            k, s = self.take()
            if k != "str":
                raise Unread("no text")
            self.need(",")
            t = self.ty()
            self.need(")")
            return ("trap", unquoted(s).decode(), t)
        if s in BY_NAME:
            self.i += 1
            self.need("(")
            return ("intr", BY_NAME[s], self.many(")", self.expr))
        if k == "str":
            self.i += 1
            return ("str", unquoted(s))
        if k == "num":
            self.i += 1
            return ("int", int(s))
        if k == "name" and s in ("true", "false"):
            self.i += 1
            return ("bool", int(s == "true"))
        if k == "name" and s not in ("let", "if", "then", "else", "match", "with", "end", "Pi", "for", "rec", "export"):
            return ("name", self.name())
        raise Unread("no expression: " + (s or "the end"))


def shapes(names):
    """(title, expression with a hole, or with none): what may stand in a program"""
    I, T = "int", ("named", 0, (("fn", ("int",), "bool"), ("named", 0, ("int", ("var", 12)))))
    n = lambda i: ("name", i)
    H = ("hole",)
    leaves = [("bool", 1), ("bool", 0), ("int", 0), ("int", 10), ("int", 18446744073709551615), ("str", b'a b'), n(4), n(9), ("trap", "no \"x\"", T),
              ("con", 2, (), ()), ("intr", "IntToString", ())]
    one = [("call", H, ()), ("call", H, (n(4), n(5))), ("call", n(4), (H,)), ("call", n(4), (H, n(5))), ("call", n(4), (n(5), H)),
           ("intr", "StringLen", (H,)), ("intr", "StringConcat", (n(4), H)), ("intr", "StringSubstring", (n(4), H, n(5))),
           ("intr", "StringCharAt", (H, n(4))), ("intr", "StringFromChar", (H,)),
           ("if", H, n(4), n(5)), ("if", n(4), H, n(5)), ("if", n(4), n(5), H),
           ("lam", ((6, I),), H), ("lam", (), H), ("lam", ((6, T), (7, ("fn", (T, "str"), ("abs", 3, ("var", 3))))), H),
           ("match", H, ((2, (), n(4)), (3, (6, 7), n(7)))), ("match", n(4), ((2, (), H), (3, (6, 7), n(7)))),
           ("match", n(4), ((2, (6,), n(6)), (3, (7,), H))), ("match", H, ()),
           ("con", 2, (), (H,)), ("con", 3, (T, I), (n(4), H)), ("con", 3, (("abs", 2, ("fn", (), ("var", 2))),), (H, n(5))),
           ("let", 6, H, n(6)), ("let", 6, n(4), H), ("rec", 6, ("fn", (I, "bool"), T), H, n(6)), ("rec", 7, ("abs", 5, T), n(4), H),
           ("pi", 10, H), ("inst", H, I), ("inst", H, ("fn", (("fn", (), I),), ("named", 0, ()))), ("inst", H, T)]
    for o in ("Add", "Subtract", "Multiply", "Divide", "Modulo", "Less", "LessEq", "Greater", "GreaterEq", "Equal", "NotEqual"):
        one += [("op", H, o, n(5)), ("op", n(4), o, H)]
    return leaves, one


def plug(e, x):
    if e == ("hole",):
        return x
    if isinstance(e, tuple):
        return tuple(plug(y, x) if isinstance(y, tuple) else y for y in e)
    return e


def illtyped(outer, inner):
    """what is called, or given a type, is no number, truth value, text or constructed value"""
    return outer[0] in ("call", "inst") and outer[1] == ("hole",) and inner[0] in ("op",)


NAMES = ("Type", "Two", "Nil", "Cons", "x", "y1", "a_b", "$", "if_", "t12", "f")


def definitions(deep):
    """expressions to a depth of three, and types to a depth of three"""
    leaves, one = shapes(NAMES)
    exprs = list(leaves)
    # the leaves in each place, each shape in each place, and in the places of one of each kind of shape
    exprs += [plug(a, x) for a in one for x in leaves]
    two = [(a, b) for a in one for b in one if not illtyped(a, b)]
    exprs += [plug(a, plug(b, ("name", 9))) for a, b in two]
    some, seen = [], set()
    for a in one:
        k = (a[0], a[2] if a[0] == "op" else None, [i for i, x in enumerate(flat(a)) if x == "hole"][0])
        if a[0] == "op" and a[2] not in ("Add", "Divide", "LessEq"):
            continue
        if k not in seen:
            seen.add(k)
            some.append(a)
    if not deep:
        few, seen = [], set()
        for a in some:
            k = (a[0], a[2] if a[0] == "op" else None)
            if k not in seen or a[0] in ("op", "if", "rec", "let"):
                seen.add(k)
                few.append(a)
        some = few
    exprs += [plug(a, plug(b, plug(c, ("int", 7)))) for a in some for b in some for c in some if not illtyped(a, b) and not illtyped(b, c) and
              (deep or a[0] == "op" and c[0] == "op" or b[0] == "op" and c[0] == "op")]
    exprs += [("str", bytes([b])) for b in range(256)] + [("str", b) for b in (b"", b"\\n", b'"\\"', b"\x00\xff\n", b"\\x41", b"a\r\nb")]
    # many of what there can be many of
    n, nine = lambda i: ("name", i), range(9)
    exprs += [("call", n(4), tuple(("int", 10 ** i) for i in nine)), ("lam", tuple((i, "int") for i in nine), n(8)),
              ("match", n(4), ((3, tuple(nine), n(8)),)), ("match", n(4), tuple((i, (), n(i)) for i in nine)),
              ("con", 3, tuple(("var", i) for i in nine), tuple(n(i) for i in nine)), ("int", (1 << 64) - 1), ("int", 10), ("int", 1 << 63),
              ("str", bytes(range(97, 123)) * 4), ("trap", "a" * 100, "int")]
    leaf = ["int", "bool", "str", ("var", 0), ("var", 12), ("named", 0, ())]
    hole = ("hole",)
    tys = [("fn", (hole,), "int"), ("fn", ("int", hole), "bool"), ("fn", (hole, "int"), "bool"), ("fn", ("int",), hole), ("fn", (), hole),
           ("abs", 3, hole), ("named", 0, (hole,)), ("named", 1, ("int", hole)), ("named", 1, (hole, ("var", 4)))]
    types = leaf + [plug(a, x) for a in tys for x in leaf] + [plug(a, plug(b, x)) for a in tys for b in tys for x in leaf[:1] + leaf[-2:]]
    types += [plug(a, plug(b, plug(c, x))) for a in tys for b in tys for c in tys for x in leaf[-1:]]
    types += [("fn", tuple(("var", i) for i in nine), "int"), ("named", 1, tuple(("var", i) for i in nine)), ("var", 1234567890)]
    return [("int", e) for e in exprs] + [(t, ("name", 4)) for t in types]


def flat(e):
    for x in e:
        if isinstance(x, tuple):
            yield from flat(x)
        else:
            yield x


def named(x):
    """an expression or a type with its names by text and number"""
    ty = named_ty
    nm = lambda i: (NAMES[i], i)
    k = x[0]
    if k in ("bool", "int", "str"):
        return x
    if k == "name":
        return ("name", nm(x[1]))
    if k == "call":
        return ("call", named(x[1]), tuple(named(y) for y in x[2]))
    if k == "if":
        return ("if",) + tuple(named(y) for y in x[1:])
    if k == "op":
        return ("op", named(x[1]), x[2], named(x[3]))
    if k == "intr":
        return x[:2] + (tuple(named(y) for y in x[2]),)
    if k == "lam":
        return ("lam", tuple((nm(n), ty(t)) for n, t in x[1]), named(x[2]))
    if k == "match":
        return ("match", named(x[1]), tuple((nm(c), tuple(nm(y) for y in xs), named(b)) for c, xs, b in x[2]))
    if k == "con":
        return ("con", nm(x[1]), tuple(ty(t) for t in x[2]), tuple(named(y) for y in x[3]))
    if k == "let":
        return ("let", nm(x[1]), named(x[2]), named(x[3]))
    if k == "rec":
        return ("rec", nm(x[1]), ty(x[2]), named(x[3]), named(x[4]))
    if k == "pi":
        return ("pi", x[1], named(x[2]))
    if k == "inst":
        return ("inst", named(x[1]), ty(x[2]))
    return ("trap", x[1], ty(x[2]))


def named_ty(t):
    if isinstance(t, str) or t[0] == "var":
        return t
    if t[0] == "named":
        return ("named", (NAMES[t[1]], t[1]), tuple(named_ty(x) for x in t[2]))
    if t[0] == "fn":
        return ("fn", tuple(named_ty(x) for x in t[1]), named_ty(t[2]))
    return ("abs", t[1], named_ty(t[2]))


def printed(prog, f, defs):
    """(text, None) or (None, what went wrong)"""
    it = Heap(prog)
    br = Printed(prog, it.box)
    st = State()
    root = ("mem", ("sym", "program"))
    st.env[root] = br.program(st, {"names": NAMES, "next": 20, "types": (), "defs": defs})
    outs = it.start(f, [("ptr", root, ())], st)
    if it.loops:
        raise Anchor("printing does not end in this analysis")
    if not outs and it.diverged:
        return None, "printing panics"
    if it.diverged or len(outs) != 1:
        raise Anchor("%d ways to print" % len(outs))
    t = known(it.deep(*outs[0]))
    if t is None:
        raise Anchor("a text that is not known: %s" % str(it.deep(*outs[0]))[:120])
    return t, None


def judge(prog, f, defs):
    text, bad = printed(prog, f, defs)
    if bad:
        return bad
    try:
        got = Reading(text).program()
    except Unread as e:
        return "%s is no program: %s" % (short(text), e)
    want = tuple(((NAMES[n], n), x, named_ty(t), named(e)) for n, x, t, e in defs)
    if got != want:
        return "%s reads back as another program" % short(text)
    return None


def short(text):
    t = " ".join(text.split())
    return t if len(t) < 160 else t[:160] + "..."


SHARED = None


def part(defs):
    prog, f = SHARED
    # together first; one by one to say which
    many = tuple((10, None, t, e) for t, e in defs)
    if judge(prog, f, many) is None:
        return len(defs), []
    bad = []
    for t, e in defs:
        for x in (None, "f", 'f"\\'):
            b = judge(prog, f, ((10, x, t, e),))
            if b:
                bad.append(((t, e), b))
                break
    if not bad:
        bad.append((None, judge(prog, f, many)))
    return len(defs), bad


def title(d):
    if d is None:
        return "definitions after each other"
    t, e = d
    return ("type %s" % (named_ty(t),) if t != "int" else "expression %s" % (e,)).replace("'", "")[:200]


# ---- types of the language, and messages
TY = "ticc::compiler::ir::Type"
SYMBOL = "ticc::compiler::ir::Symbol"
SOURCE = "\u00e9 Opt Map a x' none"
SYMBOLS = {"Opt": 10, "Map": 11, "a": 12, "x'": 13}


def filled(prog, d, by, variant=None):
    """a structure whose fields have the values given for their types"""
    a = prog.adts[d]
    vi = 0 if variant is None else [x["n"] for x in a["variants"]].index(variant)
    out = []
    for f in a["variants"][vi]["f"]:
        t = prog.tstr(f["t"])
        xs = [v for k, v in by.items() if k == t]
        if len(xs) > 1:
            raise Anchor("fields of " + d)
        out.append(xs[0] if xs else ("sym", d.split("::")[-1] + "." + f["n"]))
    return ("adt", d, vi, tuple(out))


def unit(prog):
    span = [d for d in prog.adts if d.endswith("::pos::Span")]
    pos = [d for d in prog.adts if d.endswith("::pos::Pos")]
    if len(span) != 1 or len(pos) != 1 or len(prog.adts[span[0]]["variants"][0]["f"]) != 2:
        raise Anchor("extents")
    defs = []
    for n, i in SYMBOLS.items():
        at = len(SOURCE[:SOURCE.index(" " + n) + 1].encode())
        p = lambda x: ("adt", pos[0], 0, (("c", x),))
        sp = ("adt", span[0], 0, (p(at), p(at + len(n.encode()))))
        sym = ("adt", SYMBOL, 0, (("c", i),))
        defs.append(filled(prog, "ticc::compiler::ir::Def", {SYMBOL: sym, span[0]: sp, "bool": ("c", 1)}))
    # items with none, with one and with more than one
    lists = [(), tuple(defs[:1]), (), tuple(defs[1:])]
    item = "ticc::compiler::ir::Item"
    items = tuple(filled(prog, item, {"alloc::vec::Vec<ticc::compiler::ir::Def>": ("arr", xs)}) for xs in lists)
    return filled(prog, UNIT, {"alloc::rcs::arc::Arc<str>": ("s", SOURCE), "alloc::vec::Vec<%s>" % item: ("arr", items)})


def type_value(it, prog, st, t):
    names = {"int": "Int", "bool": "Bool", "str": "String", "?": "Error", "_": "Infer"}
    vs = [v["n"] for v in prog.adts[TY]["variants"]]
    mk = lambda n, *xs: ("adt", TY, vs.index(n), xs)
    go = lambda x: type_value(it, prog, st, x)
    if isinstance(t, str):
        return mk(names[t])
    if t[0] == "named":
        return mk("Named", ("adt", SYMBOL, 0, (("c", SYMBOLS[t[1]]),)), ("arr", tuple(go(x) for x in t[2])))
    return mk({"fn": "Fn", "fold": "Folded"}[t[0]], it.box(st, go(t[1])), it.box(st, go(t[2])))


class TypeReading:
    """the grammar of types"""

    def __init__(self, text):
        self.toks = re.findall(r"[A-Za-z_'][A-Za-z_0-9']*|->|=>|[^ ]", text) + [""]
        self.i = 0

    def eat(self, t):
        if self.toks[self.i] == t:
            self.i += 1
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise Unread("%s where %s should be" % (self.toks[self.i] or "the end", t))

    def all(self):
        t = self.ty()
        self.need("")
        return t

    def ty(self):
        t = self.atom()
        if isinstance(t, tuple) and t[0] == "named" and self.toks[self.i - 1] == t[1]:
            args = []
            while self.toks[self.i] not in ("", ")", "->", "=>", "}"):
                args.append(self.atom())
            t = ("named", t[1], tuple(args))
        if self.eat("->"):
            return ("fn", t, self.ty())
        return t

    def atom(self):
        if self.eat("("):
            t = self.ty()
            self.need(")")
            return t
        if self.eat("{"):
            a = self.ty()
            self.need("=>")
            b = self.ty()
            self.need("}")
            return ("fold", a, b)
        s = self.toks[self.i]
        self.i += 1
        if s in ("int", "bool", "?", "_"):
            return s
        if s == "string":
            return "str"
        if s in SYMBOLS:
            return ("named", s, ())
        raise Unread("no type: " + (s or "the end"))


def type_shapes():
    h = ("hole",)
    leaves = ["int", "bool", "str", "?", "_", ("named", "a", ())]
    one = [("fn", h, "int"), ("fn", "bool", h), ("fold", h, "int"), ("fold", "bool", h), ("named", "Opt", (h,)), ("named", "Map", (h, ("named", "a", ()))),
           ("named", "Map", ("int", h))]
    out = leaves + [plug(a, x) for a in one for x in leaves] + [plug(a, plug(b, x)) for a in one for b in one for x in leaves]
    return out + [plug(a, plug(b, plug(c, x))) for a in one for b in one for c in one for x in ("int", ("named", "a", ()))]


def messages(types):
    """lists of parts: a type among texts, and every two parts after each other"""
    for t in types:
        yield [("Str", "type `"), ("Ty", t), ("String", "`")], t
    parts = [("Str", "one "), ("Str", ""), ("String", "t\u00e9xt"), ("Usize", 0), ("Usize", 18446744073709551615), ("Symbol", "x'"), ("Symbol", "Opt"),
             ("Ty", "int"), ("Ty", ("named", "Map", ("_", "?")))]
    yield [], None
    for a in parts:
        yield [a], None
        for b in parts:
            yield [a, b], None
    yield parts, None


def judge_messages(prog, rep):
    fs = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and prog.tstr(f.locals[0]) == "alloc::string::String" and
          any(prog.tstr(x) == "&ticc::error::RawMessage" for x in f.locals[1:f.nargs + 1])]
    if len(fs) != 1:
        raise Anchor("texts of messages: %d" % len(fs))
    f = fs[0]
    pd = [prog.tstr(x).replace("&mut ", "") for x in f.locals[1:f.nargs + 1] if prog.tstr(x).startswith("&mut ")]
    n = good = 0
    u = unit(prog)
    for parts, t in messages(type_shapes()):
        it = Heap(prog)
        st = State()
        root = ("mem", ("sym", "unit"))
        st.env[root] = u
        unit_at = ("ptr", root, ())
        segs = []
        for k, x in parts:
            v = type_value(it, prog, st, x) if k == "Ty" else ("adt", SYMBOL, 0, (("c", SYMBOLS[x]),)) if k == "Symbol" else \
                ("c", x) if k == "Usize" else ("s", x)
            segs.append(filled_part(prog, k, v))
        md = "ticc::error::RawMessage"
        mroot = ("mem", ("sym", "message"))
        st.env[mroot] = ("adt", md, 0, (("arr", tuple(segs)),))
        args = []
        for i in range(1, f.nargs + 1):
            ty = prog.tstr(f.locals[i])
            if ty == "&" + UNIT:
                args.append(unit_at)
            elif ty == "&" + md:
                args.append(("ptr", mroot, ()))
            elif ty.startswith("&mut "):
                d = prog.adt_of(f.locals[i])
                new = [g for g in prog.fns.values() if g.crate == "ticc" and g.kind == "fn" and g.nargs == 1 and prog.adt_of(g.locals[0]) == d and
                       prog.tstr(g.locals[1]) == "&" + UNIT]
                if len(new) != 1:
                    raise Anchor("printer of types")
                ends = it.start(new[0], [unit_at], st)
                if len(ends) != 1 or it.diverged:
                    raise Anchor("%d new printers" % len(ends))
                st, v = ends[0]
                proot = ("mem", ("sym", "printer%d" % i))
                st.env[proot] = v
                args.append(("ptr", proot, ()))
            else:
                raise Anchor("argument " + ty)
        outs = it.start(f, args, st)
        n += 1
        key = shown(parts, t)
        if it.loops:
            raise Anchor("a message does not end in this analysis")
        if it.diverged and not outs:
            rep.ob(False, f.id + ": " + key, "panics", f.loc())
            continue
        if it.diverged or len(outs) != 1:
            raise Anchor("%d texts of a message" % len(outs))
        text = known(it.deep(*outs[0]))
        if text is None:
            raise Anchor("a message that is not known: %s" % str(it.deep(*outs[0]))[:120])
        bad = None
        if t is not None:
            m = re.match(r"type `(.*)`$", text)
            try:
                if not m or TypeReading(m.group(1)).all() != t:
                    bad = "`%s` reads back as another type" % text
            except Unread as e:
                bad = "`%s` is no type: %s" % (text, e)
        else:
            want = "".join({"Ty": "int" if x == "int" else "Map _ ?"}.get(k, str(x)) for k, x in parts)
            if text != want:
                bad = "is `%s`" % text
        if bad:
            rep.ob(False, f.id + ": " + key, bad, f.loc())
        good += not bad
    rep.ob(good == n, f.id + ": reads back", "%d of %d messages do not read back" % (n - good, n), f.loc())
    rep.floor("messages", n, 700)


def filled_part(prog, k, v):
    sd = [d for d in prog.adts if d.endswith("::RawSegment")]
    if len(sd) != 1:
        raise Anchor("segments of a message")
    vs = [x["n"] for x in prog.adts[sd[0]]["variants"]]
    return ("adt", sd[0], vs.index(k), (v,))


def shown(parts, t):
    return ("type %s" % (t,) if t is not None else "message %s" % (parts,)).replace("'", "")[:200]


def followed(some):
    return bounded(part, 200)(some)


def run(prog, rep):
    global SHARED
    fs = [f for f in prog.fns.values() if f.crate == "ticc_core" and f.kind == "fn" and f.nargs == 1 and
          prog.tstr(f.locals[0]) == "alloc::string::String" and prog.tstr(f.locals[1]).startswith("&" + IR + "Program")]
    if len(fs) != 1:
        raise Anchor("printer of programs: %d" % len(fs))
    f = fs[0]
    SHARED = (prog, f)
    defs = definitions(os.environ.get("VERIF_TIER") == "thorough")
    parts = [defs[i:i + 40] for i in range(0, len(defs), 40)]
    bad = []
    with ProcessPoolExecutor(8, mp_context=get_context("fork"), initializer=lean) as pool:
        for n, b in pool.map(followed, parts):
            rep.count("definitions printed", n)
            bad += b
    for d, b in bad[:20]:
        rep.ob(False, "%s: %s" % (f.id, title(d)), b, f.loc())
    rep.ob(not bad, f.id + ": reads back", "%d of %d definitions do not read back" % (len(bad), len(defs)), f.loc())
    for x in ("f", 'f"\\'):
        b = judge(prog, f, ((4, x, "int", ("int", 1)), (5, None, "int", ("name", 4)), (10, "g", "int", ("name", 5))))
        rep.ob(not b, "%s: exported as %s" % (f.id, x), b or "", f.loc())
    rep.floor("definitions printed", len(defs), 5000)
    judge_messages(prog, rep)
