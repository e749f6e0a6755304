"""Tic text, read and given its meaning over values that are only partly known.

Numbers are polynomials over unknowns (with what is known of the range of each), rows of 64 bits that are functions of unknown bits, or
known; texts are rows of such numbers; functions that are given are unknown but for what they are asked. A question that what is known
does not answer is answered in both ways, on paths of their own (`paths`)."""
import itertools, re

M = 1 << 64
TOKENS = re.compile(r'\s+|--[^\n]*|(?P<str>"[^"\n]*")|(?P<num>[0-9]+)|(?P<hole>\?[A-Za-z_0-9]*)|(?P<id>[A-Za-z_][A-Za-z0-9_]*)'
                    r'|(?P<op>->|\|>|<=|>=|==|!=|[-+*/%<>=:;|(),.\\])')
WORDS = {"import", "from", "export", "let", "match", "with", "end", "if", "then", "else", "type", "true", "false", "fold", "rec", "int",
         "bool", "string"}
POWER = {"+": (7, 8), "-": (7, 8), "*": (9, 10), "/": (9, 10), "%": (9, 10), "<": (3, 4), "<=": (3, 4), ">": (3, 4), ">=": (3, 4),
         "==": (3, 4), "!=": (3, 4), "|>": (1, 2)}


class Broken(Exception):
    """the text is not Tic"""


class Untold(Exception):
    """what is known does not say"""


class Stuck(Exception):
    """the evaluation reaches what has no value"""


def tokens(text):
    out, at = [], 0
    while at < len(text):
        m = TOKENS.match(text, at)
        if not m:
            raise Broken("no token at %r" % text[at:at + 20])
        at = m.end()
        for k in ("str", "num", "hole", "id", "op"):
            if m.group(k) is not None:
                s = m.group(k)
                out.append(("word" if k == "id" and s in WORDS else k, s))
    return out + [("end", "")]


class Parser:
    def __init__(self, text):
        self.t, self.i = tokens(text), 0

    def at(self, *s):
        return self.t[self.i][0] in ("op", "word") and self.t[self.i][1] in s

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def take(self, s):
        if not self.at(s):
            raise Broken("%r where %r should be" % (self.t[self.i][1], s))
        self.i += 1

    def name(self):
        k, s = self.next()
        if k != "id":
            raise Broken("%r where a name should be" % s)
        return s

    def skip_type(self):
        """up to the `=` of a definition"""
        deep, start = 0, self.i
        while deep or not self.at("="):
            if self.t[self.i][0] == "end":
                raise Broken("a type without an end")
            deep += self.at("(") - self.at(")")
            self.i += 1
        return read_type([x for _, x in self.t[start:self.i]])

    def module(self):
        imports, items = [], []
        while self.t[self.i][0] != "end":
            if self.at("import"):
                self.i += 1
                alias, names = None, []
                if self.t[self.i][0] == "id":
                    alias = self.name()
                if self.at("("):
                    self.i += 1
                    while not self.at(")"):
                        names.append(self.name())
                        if self.at(","):
                            self.i += 1
                    self.take(")")
                self.take("from")
                imports.append((alias, names, self.next()[1].strip('"')))
                self.take(";")
                continue
            export = self.at("export")
            self.i += export
            if self.at("type"):
                self.i += 1
                self.name()
                while not self.at("="):
                    self.name()
                self.i += 1
                ctors = []
                open_ = self.at("export")
                self.i += open_
                if self.at("|"):
                    self.i += 1
                while True:
                    c, fields = self.name(), []
                    while not self.at("|", ";"):
                        fields.append(self.field())
                    ctors.append((c, fields))
                    if self.at(";"):
                        break
                    self.i += 1
                self.take(";")
                items.append(("type", open_, ctors))
            else:
                self.take("let")
                n, t = self.name(), None
                if self.at(":"):
                    self.i += 1
                    t = self.skip_type()
                self.take("=")
                e = self.expr()
                self.take(";")
                items.append(("let", export, n, e, t))
        return imports, items

    def field(self):
        if self.at("rec"):
            self.i += 1
            return "rec"
        if self.at("("):
            deep = 0
            while True:
                deep += self.at("(") - self.at(")")
                self.i += 1
                if not deep:
                    return "plain"
        self.i += 1
        while self.at("."):
            self.i += 2
        return "plain"

    def expr(self):
        if self.at("let"):
            self.i += 1
            n = self.name()
            if self.at(":"):
                self.i += 1
                self.skip_type()
            self.take("=")
            v = self.expr()
            self.take(";")
            return ("let", n, v, self.expr())
        if self.at("\\"):
            self.i += 1
            fold = self.at("fold")
            self.i += fold
            n = self.name()
            self.take("->")
            return ("fold" if fold else "lam", n, self.expr())
        if self.at("if"):
            self.i += 1
            c = self.expr()
            self.take("then")
            a = self.expr()
            self.take("else")
            return ("if", c, a, self.expr())
        if self.at("match"):
            self.i += 1
            d, out = self.expr(), []
            self.take("with")
            while self.at("|"):
                self.i += 1
                c, xs = self.name(), []
                if self.at("."):
                    self.i += 1
                    c = self.name()
                while self.t[self.i][0] == "id":
                    xs.append(self.name())
                self.take("->")
                out.append((c, xs, self.expr()))
            self.take("end")
            return ("match", d, out)
        return self.ops(0)

    def ops(self, least):
        a = self.apply()
        while self.t[self.i][0] == "op" and self.t[self.i][1] in POWER and POWER[self.t[self.i][1]][0] >= least:
            op = self.next()[1]
            b = self.ops(POWER[op][1])
            a = ("app", b, a) if op == "|>" else ("op", op, a, b)
        return a

    def apply(self):
        f = self.atom()
        if f is None:
            raise Broken("%r where an expression should be" % self.t[self.i][1])
        while True:
            x = self.atom()
            if x is None:
                return f
            f = ("app", f, x)

    def atom(self):
        k, s = self.t[self.i]
        if k == "op" and s == "(":
            self.i += 1
            e = self.expr()
            self.take(")")
            return e
        if k == "word" and s in ("true", "false"):
            self.i += 1
            return ("bool", s == "true")
        if k == "num":
            self.i += 1
            return ("num", int(s))
        if k == "str":
            self.i += 1
            return ("str", s[1:-1])
        if k == "hole":
            self.i += 1
            return ("hole", s)
        if k == "id":
            self.i += 1
            if self.at("."):
                self.i += 1
                return ("name", s, self.name())
            return ("name", s)
        return None


# ---------------------------------------------------------------- types
def read_type(ws):
    """("fn", a, b), ("named", name, args) or ("var", name)"""
    i = 0

    def whole():
        nonlocal i
        a = applied()
        if i < len(ws) and ws[i] == "->":
            i += 1
            return ("fn", a, whole())
        return a

    def single():
        nonlocal i
        if i >= len(ws) or ws[i] in ("->", ")"):
            return None
        w = ws[i]
        i += 1
        if w == "(":
            t = whole()
            i += 1
            return t
        while i + 1 < len(ws) and ws[i] == ".":
            w = ws[i + 1]
            i += 2
        return ("named", w, ()) if w[:1].isupper() or w in ("int", "bool", "string") else ("var", w)

    def applied():
        f = single()
        if f is None:
            raise Broken("a type is missing")
        args = []
        while f[0] == "named":
            x = single()
            if x is None:
                break
            args.append(x)
        return ("named", f[1], tuple(args)) if args else f
    t = whole()
    if i < len(ws):
        raise Broken("%r in a type" % ws[i])
    return t


def covers(t, u, env):
    """is u what t is with types in place of its variables"""
    if t[0] == "var":
        return env.setdefault(t[1], u) == u
    if t[0] != u[0]:
        return False
    if t[0] == "fn":
        return covers(t[1], u[1], env) and covers(t[2], u[2], env)
    return t[1] == u[1] and len(t[2]) == len(u[2]) and all(covers(x, y, env) for x, y in zip(t[2], u[2]))


# ---------------------------------------------------------------- numbers
def num(c, terms=()):
    return ("i", c % M, tuple(sorted(((m, k % M) for m, k in dict(terms).items() if k % M), key=repr)))


def unknown(a):
    return num(0, {(a,): 1})


def signed(k):
    return k - M if k >= M // 2 else k


def add(a, b, by=1):
    t = dict(a[2])
    for m, k in b[2]:
        t[m] = t.get(m, 0) + by * k
    return num(a[1] + by * b[1], t)


def mul(a, b):
    t = {}
    for m, k in ((), a[1]), *a[2]:
        for n, l in ((), b[1]), *b[2]:
            p = tuple(sorted(m + n, key=repr))
            t[p] = t.get(p, 0) + k * l
    c = t.pop((), 0)
    return num(c, t)


def text(s):
    return ("s", tuple(num(c) for c in s.encode()))


# ---------------------------------------------------------------- bits: what each is, by the unknown bits it depends on
ZERO, ONE = ((), (False,)), ((), (True,))


def boolean(f, *xs):
    """f of the bits xs"""
    if any(x is None for x in xs):
        return None
    vs = sorted({v for x in xs for v in x[0]}, key=repr)
    if len(vs) > 8:
        return None

    def value(x, env):
        at = 0
        for v in x[0]:
            at = at * 2 + env[v]
        return x[1][at]
    table = [bool(f(*(value(x, dict(zip(vs, row))) for x in xs))) for row in itertools.product((False, True), repeat=len(vs))]
    for i in reversed(range(len(vs))):
        step = 1 << (len(vs) - 1 - i)
        if all(table[j] == table[j ^ step] for j in range(len(table))):
            table = [table[j] for j in range(len(table)) if not j & step]
            vs = vs[:i] + vs[i + 1:]
    return (tuple(vs), tuple(table))


def bits(a):
    if a[0] == "b":
        return a[1]
    if a[2]:
        raise Untold("the bits of an unknown number")
    return tuple(ONE if a[1] >> i & 1 else ZERO for i in range(64))


def of_bits(bs):
    if all(b in (ZERO, ONE) for b in bs):
        return num(sum(1 << i for i, b in enumerate(bs) if b == ONE))
    return ("b", tuple(bs))


def low(bs):
    """the number of places up to the highest that can be set"""
    return max((i + 1 for i, b in enumerate(bs) if b != ZERO), default=0)


def bit_add(a, b, carry=ZERO):
    out = []
    for x, y in zip(a, b):
        out.append(boolean(lambda p, q, c: p ^ q ^ c, x, y, carry))
        carry = boolean(lambda p, q, c: p + q + c > 1, x, y, carry)
    return tuple(out)


# ---------------------------------------------------------------- runs
class Run:
    def __init__(self, script):
        self.script, self.used, self.facts = list(script), [], {}
        self.range, self.rank = {}, {}
        self.fuel = 400000

    def choose(self, key, options):
        """one of the options, the same for the same key on this path"""
        if key in self.facts:
            return self.facts[key]
        n = len(self.used)
        i = self.script[n] if n < len(self.script) else 0
        self.used.append((i, len(options)))
        self.facts[key] = options[i]
        return options[i]

    # what is known of numbers
    def bounds(self, a):
        lo = hi = signed(a[1])
        for m, k in a[2]:
            if len(m) != 1 or m[0] not in self.range:
                return None
            l, h, _ = self.range[m[0]]
            k = signed(k)
            lo, hi = lo + min(k * l, k * h), hi + max(k * l, k * h)
        return lo, hi

    def within(self, a):
        b = self.bounds(a)
        if b is not None and not a[2]:
            return a[1], a[1]
        return b if b is not None and b[0] >= 0 and b[1] < M else None

    def compare(self, a, b):
        """-1, 0 or 1"""
        if a[0] == "b" or b[0] == "b":
            raise Untold("the order of rows of bits")
        if a == b:
            return 0
        if not a[2] and not b[2]:
            return -1 if a[1] < b[1] else 1
        x, y = self.single(a), self.single(b)
        if x in self.rank and y in self.rank:
            p, q = self.rank[x], self.rank[y]
            return (p > q) - (p < q)
        for v, w, s in ((x, b, 1), (y, a, -1)):
            if v is not None and not w[2]:
                return s * self.against(v, w[1])
        for p, q, s in ((a, b, 1), (b, a, -1)):
            v = self.single(num(0, dict(p[2])))
            if v is not None and not q[2] and p[1] and v not in self.rank:
                # whether the sum goes round, then the unknown against what is left
                k = p[1]
                left = q[1] - k + (M if self.against(v, M - k) >= 0 else 0)
                return s * (1 if left < 0 else -1 if left >= M else self.against(v, left))
        if self.within(a) and self.within(b):
            d = self.bounds(add(a, b, -1))
            if d[1] < 0 or d[0] > 0:
                return -1 if d[1] < 0 else 1
        if repr(a) > repr(b):
            return -self.compare(b, a)
        same = ("same", a, b)
        if same in self.facts:
            if self.facts[same]:
                return 0
            return self.choose(("less", a, b), (-1, 1))
        return self.choose(("order", a, b), (-1, 0, 1))

    def single(self, a):
        return a[2][0][0][0] if not a[1] and len(a[2]) == 1 and len(a[2][0][0]) == 1 and a[2][0][1] == 1 else None

    def against(self, v, c):
        """an unknown against a known number"""
        lo, hi, no = self.range.get(v, (0, M - 1, frozenset()))
        ways = [w for w, ok in ((-1, lo < c), (0, lo <= c <= hi and c not in no), (1, hi > c)) if ok]
        if not ways:
            raise Untold("nothing is left of an unknown")
        w = ways[0] if len(ways) == 1 else self.choose(("against", v, c, lo, hi), tuple(ways))
        if w < 0:
            hi = min(hi, c - 1)
        elif w > 0:
            lo = max(lo, c + 1)
        else:
            lo = hi = c
        while lo in no and lo < hi:
            lo += 1
        while hi in no and lo < hi:
            hi -= 1
        self.range[v] = (lo, hi, no)
        return w

    def equal(self, a, b):
        if a[0] == "b" or b[0] == "b":
            raise Untold("whether rows of bits are equal")
        if a == b:
            return True
        if not a[2] and not b[2]:
            return False
        if not b[2] and a[1]:
            a, b = num(0, dict(a[2])), num(b[1] - a[1])
        elif not a[2] and b[1]:
            a, b = num(a[1] - b[1]), num(0, dict(b[2]))
        for v, c in ((self.single(a), b), (self.single(b), a)):
            if v is not None and not c[2] and v not in self.rank:
                lo, hi, no = self.range.get(v, (0, M - 1, frozenset()))
                if not lo <= c[1] <= hi or c[1] in no:
                    return False
                if lo == hi:
                    return True
                if self.choose(("is", v, c[1], lo, hi), (True, False)):
                    self.range[v] = (c[1], c[1], no)
                    return True
                self.range[v] = (lo, hi, no | {c[1]})
                return False
        d = add(a, b, -1)
        if not d[2]:
            return d[1] == 0
        r = self.single(a), self.single(b)
        if r[0] in self.rank and r[1] in self.rank:
            return self.rank[r[0]] == self.rank[r[1]]
        for p, q in ((a, b), (b, a)):
            if ("order", p, q) in self.facts:
                return self.facts[("order", p, q)] == 0
        if repr(a) > repr(b):
            a, b = b, a
        return self.choose(("same", a, b), (True, False))

    def operate(self, op, a, b):
        if op in ("==", "!="):
            if a[0] == "b" or b[0] == "b":
                t = ONE
                for x, y in zip(bits(a), bits(b)):
                    t = boolean(lambda p, q, t: t and p == q, x, y, t)
                if t is None:
                    raise Untold("whether rows of bits are equal")
                if op == "!=":
                    t = boolean(lambda p: not p, t)
                return {ZERO: False, ONE: True}.get(t, ("tt", t))
            return self.equal(a, b) == (op == "==")
        if op in ("<", "<=", ">", ">="):
            if a[0] != "b" and b[0] != "b":
                c = self.compare(a, b)
                return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
            raise Untold("the order of rows of bits")
        if a[0] == "b" or b[0] == "b":
            return self.bitwise(op, a, b)
        if op == "+":
            return add(a, b)
        if op == "-":
            return add(a, b, -1)
        if op == "*":
            return mul(a, b)
        if not b[2] and op == "/" and b[1] == 1:
            return a
        if not b[2] and b[1] == 0:
            return num(0) if op == "/" else a
        if not a[2] and not b[2]:
            return num(a[1] // b[1] if op == "/" else a[1] % b[1])
        if b[2] and self.known_zero(b):
            return num(0) if op == "/" else a
        x, y = self.within(a), self.within(b)
        if x and y and x[1] < y[0]:
            return num(0) if op == "/" else a
        return unknown((op, a, b))

    def known_zero(self, b):
        v = self.single(b)
        return v is not None and self.range.get(v, (0, 1))[:2] == (0, 0)

    def bitwise(self, op, a, b):
        if op in ("%", "/", "*") and b[0] == "i" and not b[2] and b[1] and b[1] & (b[1] - 1) == 0:
            k, x = b[1].bit_length() - 1, bits(a)
            return of_bits(x[:k] + (ZERO,) * (64 - k) if op == "%" else x[k:] + (ZERO,) * k if op == "/" else ((ZERO,) * k + x)[:64])
        x, y = bits(a), bits(b)
        if op == "+":
            return of_bits(bit_add(x, y))
        if op == "-":
            return of_bits(bit_add(x, tuple(boolean(lambda p: not p, q) for q in y), ONE))
        if op == "*" and low(x) > 1:
            x, y = y, x
        if op == "*" and low(x) <= 1:
            return of_bits(tuple(boolean(lambda p, q: p and q, x[0], q) for q in y))
        raise Untold("an operation on unknown bits")

    # texts
    def length(self, s):
        return num(len(s[1]))

    def known(self, a, what):
        if a[0] == "b" or a[2]:
            b = self.bounds(a) if a[0] == "i" else None
            if b and b[0] == b[1]:
                return b[0] % M
            raise Untold(what)
        return a[1]

    def char_at(self, i, s):
        i = self.known(i, "which character")
        return s[1][i] if i < len(s[1]) else num(0)

    def substring(self, at, n, s):
        at, n = self.known(at, "where a part begins"), self.known(n, "how long a part is")
        return ("s", s[1][at:at + n] if at <= len(s[1]) else ())

    def from_char(self, c):
        if c[0] == "i" and not c[2]:
            return ("s", (num(c[1] % 256),))
        b = self.within(c) if c[0] == "i" else None
        return ("s", (c if b and b[1] < 256 else unknown(("byte", c)),))

    def digits(self, a):
        if a[0] == "i" and not a[2]:
            return text(str(a[1]))
        return ("s", (unknown(("digits", a)),))

    def iterate(self, n, f, x):
        for _ in range(self.known(n, "how often")):
            x = f(x)
        return x


def paths(f, most=6000):
    """what f gives on each path"""
    script = []
    for _ in range(most):
        r = Run(script)
        yield f(r)
        used = r.used
        while used and used[-1][0] + 1 >= used[-1][1]:
            used.pop()
        if not used:
            return
        script = [i for i, _ in used[:-1]] + [used[-1][0] + 1]
    raise Untold("too many paths")


# ---------------------------------------------------------------- modules
INTRINSICS = {
    "iterate": lambda r: lambda n: lambda f: lambda x: r.iterate(n, f, x),
    "stringLength": lambda r: lambda s: r.length(s),
    "stringConcat": lambda r: lambda a: lambda b: ("s", a[1] + b[1]),
    "stringCharAt": lambda r: lambda i: lambda s: r.char_at(i, s),
    "stringSubstring": lambda r: lambda i: lambda n: lambda s: r.substring(i, n, s),
    "stringFromChar": lambda r: lambda c: r.from_char(c),
    "intToString": lambda r: lambda a: r.digits(a),
}


class Library:
    """the modules, by name; `source(name)` gives the text of one"""

    def __init__(self, source):
        self.source, self.parsed = source, {}

    def module(self, name):
        if name not in self.parsed:
            self.parsed[name] = Parser(self.source(name)).module()
        return self.parsed[name]

    def on(self, run):
        return Loaded(self, run)


class Loaded:
    def __init__(self, lib, run):
        self.lib, self.run, self.done, self.recs = lib, run, {}, {}

    def module(self, name):
        """what a module exports"""
        if name in self.done:
            return self.done[name]
        imports, items = self.lib.module(name)
        env, out = {}, {}
        for alias, names, path in imports:
            m = self.module(path)
            if alias is not None:
                env[(alias,)] = m
            for n in names:
                if n in m:
                    env[n] = m[n]
        for it in items:
            if it[0] == "type":
                for c, fields in it[2]:
                    v = self.constructor(c, len(fields))
                    env[c] = v
                    self.recs[c] = fields
                    if it[1]:
                        out[c] = v
            else:
                _, export, n, e, _ = it
                if e[0] == "hole" and name == "std/intrinsics":
                    if n not in INTRINSICS:
                        raise Broken("an unknown intrinsic %s" % n)
                    env[n] = INTRINSICS[n](self.run)
                else:
                    env[n] = self.eval(e, env)
                if export:
                    out[n] = env[n]
        self.done[name] = out
        return out

    def constructor(self, c, n):
        def more(xs):
            return ("c", c, xs) if len(xs) == n else lambda x: more(xs + (x,))
        return more(())

    def eval(self, e, env):
        r = self.run
        while True:
            r.fuel -= 1
            if r.fuel < 0:
                raise Untold("no end")
            k = e[0]
            if k == "num":
                return num(e[1])
            if k == "bool":
                return e[1]
            if k == "str":
                return text(e[1])
            if k == "name":
                if len(e) == 3:
                    m = env.get((e[1],))
                    if m is None or e[2] not in m:
                        raise Broken("no %s.%s" % e[1:])
                    return m[e[2]]
                if e[1] not in env:
                    raise Broken("no %s" % e[1])
                return env[e[1]]
            if k == "app":
                f = self.eval(e[1], env)
                x = self.eval(e[2], env)
                return f(x)
            if k == "op":
                return r.operate(e[1], self.eval(e[2], env), self.eval(e[3], env))
            if k == "if":
                c = self.eval(e[1], env)
                if isinstance(c, tuple):
                    a, b = self.eval(e[2], env), self.eval(e[3], env)
                    if not (isinstance(a, tuple) and isinstance(b, tuple) and a[0] in "ib" and b[0] in "ib"):
                        raise Untold("a choice by unknown bits")
                    return of_bits(tuple(boolean(lambda c, x, y: x if c else y, c[1], x, y) for x, y in zip(bits(a), bits(b))))
                e = e[2] if c else e[3]
                continue
            if k == "let":
                env = {**env, e[1]: self.eval(e[2], env)}
                e = e[3]
                continue
            if k == "lam":
                return lambda x, e=e, env=env: self.eval(e[2], {**env, e[1]: x})
            if k == "fold":
                def go(v, e=e, env=env):
                    if v[0] != "c":
                        raise Untold("a fold of an unknown value")
                    fields = self.recs[v[1]]
                    v = ("c", v[1], tuple(go(x) if f == "rec" else x for f, x in zip(fields, v[2])))
                    return self.eval(e[2], {**env, e[1]: v})
                return go
            if k == "match":
                d = self.eval(e[1], env)
                if not isinstance(d, tuple) or d[0] != "c":
                    raise Untold("a match on an unknown value")
                for c, xs, b in e[2]:
                    if c == d[1]:
                        env = {**env, **dict(zip(xs, d[2]))}
                        e = b
                        break
                else:
                    raise Stuck("no branch for %s" % d[1])
                continue
            raise Stuck("reaches %s" % e[1])
