"""C32: the standard library's functions give what they promise."""
import itertools, os, re
from ..mir import Anchor
from .. import build
from ..tic import (Library, Untold, Stuck, Broken, paths, num, unknown, text, mul, add, of_bits, boolean, read_type, covers, M)

RULE = ("each exported function of the standard library, given any arguments of the shapes of the catalogue, gives what its statement says, "
        "on every path")
ASSUMPTIONS = ["lists, texts and arrays are of the lengths of the catalogue; what they hold is any",
               "what the compiler and the interpreters make of the text of a module is C01, C02, C21, C28 and C30"]
STD = "ticc/src/std"


class Out(Exception):
    """not on a path that can be"""


def el(i, name="x"):
    return unknown((name, i))


def els(n, name="x"):
    return [el(i, name) for i in range(n)]


def con(c, *xs):
    return ("c", c, tuple(xs))


def lst(xs):
    out = con("Nil")
    for x in reversed(list(xs)):
        out = con("Cons", x, out)
    return out


def unlist(v):
    out = []
    while v[1] == "Cons":
        out.append(v[2][0])
        v = v[2][1]
    return out


def some(x):
    return con("Some", x)


NONE = con("None")


def fn(name, n=1):
    """an unknown function of n arguments"""
    def more(xs):
        return ("t", name, xs) if len(xs) == n else lambda x: more(xs + (x,))
    return more(())


def call(f, *xs):
    for x in xs:
        f = f(x)
    return f


def asks(r, name):
    return lambda x: r.choose((name, x), (False, True))


def either(r, name, yes, no):
    """an unknown function that gives one of two shapes"""
    return lambda x: yes(("t", name, (x,))) if r.choose((name, x), (True, False)) else no(("t", name + "!", (x,)))


def name_of(v):
    return short(v)[:120]


def short(v):
    if isinstance(v, bool):
        return str(v).lower()
    if not isinstance(v, tuple):
        return "a function"
    if v[0] == "i":
        parts = ["%s%s" % ("" if k == 1 else "%d*" % (k if k < M // 2 else k - M), "*".join(atom(a) for a in m)) for m, k in v[2]]
        if v[1] or not parts:
            parts.append(str(v[1] if v[1] < M // 2 else v[1] - M))
        return " + ".join(parts)
    if v[0] == "b":
        return "the bits %r" % (v[1][:2],)
    if v[0] == "s":
        return "[%s]" % ", ".join(short(x) for x in v[1])
    if v[0] == "t":
        return "%s(%s)" % (v[1], ", ".join(short(x) for x in v[2]))
    if v[0] == "c":
        if v[1] in ("Nil", "Cons"):
            return "[%s]" % "; ".join(short(x) for x in unlist(v))
        return "(%s)" % " ".join([v[1]] + [short(x) for x in v[2]]) if v[2] else v[1]
    return repr(v)


def atom(a):
    if a[0] in ("/", "%"):
        return "(%s %s %s)" % (short(a[1]), a[0], short(a[2]))
    return "%s%s" % (a[0], a[1] if not isinstance(a[1], tuple) else short(a[1]))


CASES = []


def case(f, *shapes):
    """`shapes`: one case each"""
    def register(body):
        for s in itertools.product(*shapes) if shapes else [()]:
            CASES.append((f, s, body))
        return body
    return register


def same(got, want):
    return [(got == want, "gives %s, not %s" % (name_of(got), name_of(want)))]


def options():
    return {"None": NONE, "Some": some(el(0))}


LEN = range(5)
SMALL = range(4)


# ---------------------------------------------------------------- std/option, std/result
@case("option.map", ("None", "Some"))
def _(r, f, s):
    return same(call(f, fn("f"), options()[s]), NONE if s == "None" else some(("t", "f", (el(0),))))


@case("option.andThen", ("None", "Some"))
def _(r, f, s):
    g = either(r, "f", some, lambda _: NONE)
    return same(call(f, g, options()[s]), NONE if s == "None" else g(el(0)))


@case("option.flatten", ("None", "Some None", "Some Some"))
def _(r, f, s):
    return same(f({"None": NONE, "Some None": some(NONE), "Some Some": some(some(el(0)))}[s]), some(el(0)) if s == "Some Some" else NONE)


@case("option.unwrapOr", ("None", "Some"))
def _(r, f, s):
    return same(call(f, el(9), options()[s]), el(9) if s == "None" else el(0))


@case("option.apply", ("None", "Some"), ("None", "Some"))
def _(r, f, s, t):
    return same(call(f, options()[s], NONE if t == "None" else some(fn("f"))),
                some(("t", "f", (el(0),))) if (s, t) == ("Some", "Some") else NONE)


@case("option.isSome", ("None", "Some"))
def _(r, f, s):
    return same(f(options()[s]), s == "Some")


@case("option.isNone", ("None", "Some"))
def _(r, f, s):
    return same(f(options()[s]), s == "None")


def ok(x):
    return con("Ok", x)


def err(x):
    return con("Err", x)


def result(s):
    return (ok if s == "Ok" else err)(el(0))


@case("result.map", ("Ok", "Err"))
def _(r, f, s):
    return same(call(f, fn("f"), result(s)), ok(("t", "f", (el(0),))) if s == "Ok" else err(el(0)))


@case("result.mapErr", ("Ok", "Err"))
def _(r, f, s):
    return same(call(f, fn("f"), result(s)), err(("t", "f", (el(0),))) if s == "Err" else ok(el(0)))


@case("result.andThen", ("Ok", "Err"))
def _(r, f, s):
    g = either(r, "f", ok, err)
    return same(call(f, g, result(s)), g(el(0)) if s == "Ok" else err(el(0)))


@case("result.flatten", ("Ok Ok", "Ok Err", "Err"))
def _(r, f, s):
    return same(f({"Ok Ok": ok(ok(el(0))), "Ok Err": ok(err(el(0))), "Err": err(el(0))}[s]), ok(el(0)) if s == "Ok Ok" else err(el(0)))


@case("result.unwrapOr", ("Ok", "Err"))
def _(r, f, s):
    return same(call(f, el(9), result(s)), el(0) if s == "Ok" else el(9))


@case("result.ok", ("Ok", "Err"))
def _(r, f, s):
    return same(f(result(s)), some(el(0)) if s == "Ok" else NONE)


@case("result.err", ("Ok", "Err"))
def _(r, f, s):
    return same(f(result(s)), some(el(0)) if s == "Err" else NONE)


@case("result.okOr", ("None", "Some"))
def _(r, f, s):
    return same(call(f, el(9), options()[s]), ok(el(0)) if s == "Some" else err(el(9)))


@case("result.apply", ("Ok", "Err"), ("Ok", "Err"))
def _(r, f, s, t):
    g = ok(fn("f")) if t == "Ok" else err(el(9))
    return same(call(f, result(s), g), err(el(9)) if t == "Err" else ok(("t", "f", (el(0),))) if s == "Ok" else err(el(0)))


@case("result.join", ("Ok", "Err"))
def _(r, f, s):
    return same(f(result(s)), el(0))


# ---------------------------------------------------------------- std/list
@case("list.map", LEN)
def _(r, f, n):
    return same(call(f, fn("f"), lst(els(n))), lst(("t", "f", (x,)) for x in els(n)))


@case("list.filter", LEN)
def _(r, f, n):
    p = asks(r, "p")
    return same(call(f, p, lst(els(n))), lst(x for x in els(n) if p(x)))


@case("list.filterMap", LEN)
def _(r, f, n):
    g = either(r, "f", some, lambda _: NONE)
    return same(call(f, g, lst(els(n))), lst(g(x)[2][0] for x in els(n) if g(x) != NONE))


@case("list.sum", LEN)
def _(r, f, n):
    t = num(0)
    for x in els(n):
        t = add(t, x)
    return same(f(lst(els(n))), t)


@case("list.product", LEN)
def _(r, f, n):
    t = num(1)
    for x in els(n):
        t = mul(t, x)
    return same(f(lst(els(n))), t)


BOOLS = [bs for n in range(4) for bs in itertools.product((False, True), repeat=n)]


@case("list.any", BOOLS)
def _(r, f, bs):
    return same(f(lst(bs)), any(bs))


@case("list.all", BOOLS)
def _(r, f, bs):
    return same(f(lst(bs)), all(bs))


@case("list.head", LEN)
def _(r, f, n):
    return same(f(lst(els(n))), some(el(0)) if n else NONE)


@case("list.tail", LEN)
def _(r, f, n):
    return same(f(lst(els(n))), some(lst(els(n)[1:])) if n else NONE)


@case("list.reverse", LEN)
def _(r, f, n):
    return same(f(lst(els(n))), lst(reversed(els(n))))


@case("list.length", LEN)
def _(r, f, n):
    return same(f(lst(els(n))), num(n))


def orders(most):
    """every order of up to so many elements, as the rank of each"""
    return [w for n in range(most + 1) for w in itertools.product(range(n), repeat=n) if set(w) == set(range(len(set(w))))]


def ranked(r, w):
    for i, k in enumerate(w):
        r.rank[("x", i)] = k
    return els(len(w))


def extreme(pick):
    def body(r, f, w):
        xs = ranked(r, w)
        got = f(lst(xs))
        good = {some(x) for x, k in zip(xs, w) if k == pick(w)} if w else {NONE}
        return [(got in good, "of elements ordered as %r it gives %s" % (list(w), name_of(got)))]
    return body


def less(r):
    return lambda x: lambda y: r.compare(x, y) < 0


case("list.max", orders(4))(extreme(max))
case("list.min", orders(4))(extreme(min))
case("list.maxBy", orders(4))(lambda r, f, w: extreme(max)(r, f(less(r)), w))
case("list.minBy", orders(4))(lambda r, f, w: extreme(min)(r, f(less(r)), w))


@case("list.sortBy", orders(4) + [w for w in itertools.permutations(range(5))] + [(0, 1, 0, 1, 0, 1), (2, 0, 1, 2, 0, 1, 3), (1,) * 5])
def _(r, f, w):
    xs = ranked(r, w)
    got = unlist(call(f, less(r), lst(xs)))
    ranks = [w[xs.index(x)] for x in got if x in xs]
    return [(sorted(map(repr, got)) == sorted(map(repr, xs)) and ranks == sorted(ranks),
             "elements ordered as %r come out as %s" % (list(w), "; ".join(map(short, got))))]


@case("list.allSome", [bs for bs in BOOLS])
def _(r, f, bs):
    xs = [some(x) if b else NONE for x, b in zip(els(len(bs)), bs)]
    return same(f(lst(xs)), some(lst(els(len(bs)))) if all(bs) else NONE)


@case("list.allOk", [bs for bs in BOOLS])
def _(r, f, bs):
    xs = [ok(x) if b else err(x) for x, b in zip(els(len(bs)), bs)]
    return same(f(lst(xs)), ok(lst(els(len(bs)))) if all(bs) else err(el(bs.index(False))))


@case("list.skip", range(6), LEN)
def _(r, f, k, n):
    return same(call(f, num(k), lst(els(n))), lst(els(n)[k:]))


@case("list.take", range(6), LEN)
def _(r, f, k, n):
    return same(call(f, num(k), lst(els(n))), lst(els(n)[:k]))


@case("list.foldr", LEN)
def _(r, f, n):
    want = el(9)
    for x in reversed(els(n)):
        want = ("t", "f", (x, want))
    return same(call(f, fn("f", 2), el(9), lst(els(n))), want)


@case("list.foldl", LEN)
def _(r, f, n):
    want = el(9)
    for x in els(n):
        want = ("t", "f", (want, x))
    return same(call(f, el(9), fn("f", 2), lst(els(n))), want)


@case("list.repeat", LEN)
def _(r, f, n):
    return same(call(f, num(n), el(0)), lst([el(0)] * n))


@case("list.concat", SMALL, SMALL)
def _(r, f, n, m):
    return same(call(f, lst(els(n)), lst(els(m, "y"))), lst(els(n) + els(m, "y")))


def word(n, name):
    return ("s", tuple(els(n, name)))


@case("list.join", [ns for k in range(4) for ns in itertools.product(range(3), repeat=k)] + [(1, 1, 1, 1)], range(3))
def _(r, f, ns, m):
    ws = [word(n, "w%d." % i) for i, n in enumerate(ns)]
    want = ()
    for i, w in enumerate(ws):
        want += (word(m, "sep")[1] if i else ()) + w[1]
    return same(call(f, word(m, "sep"), lst(ws)), ("s", want))


@case("list.range", ("known", "unknown"), range(6))
def _(r, f, how, n):
    a = num(3) if how == "known" else unknown(("start", 0))
    r.range[("start", 0)] = (0, 1 << 62, frozenset())
    return same(call(f, a, add(a, num(n))), lst(add(a, num(i)) for i in range(n)))


@case("list.zip", LEN, LEN)
def _(r, f, n, m):
    return same(call(f, fn("f", 2), lst(els(n)), lst(els(m, "y"))), lst(("t", "f", p) for p in zip(els(n), els(m, "y"))))


@case("list.flatMap", [ns for k in range(4) for ns in itertools.product(range(3), repeat=k)])
def _(r, f, ns):
    parts = {el(i): els(n, "y%d." % i) for i, n in enumerate(ns)}
    return same(call(f, lambda x: lst(parts[x]), lst(els(len(ns)))), lst(sum(parts.values(), [])))


@case("list.flatten", [ns for k in range(4) for ns in itertools.product(range(3), repeat=k)])
def _(r, f, ns):
    parts = [els(n, "y%d." % i) for i, n in enumerate(ns)]
    return same(f(lst(map(lst, parts))), lst(sum(parts, [])))


# ---------------------------------------------------------------- std/string
def letters(r, n, name="c"):
    """a text of n unknown characters"""
    for i in range(n):
        r.range[(name, i)] = (0, 255, frozenset())
    return ("s", tuple(els(n, name)))


@case("string.length", LEN)
def _(r, f, n):
    return same(f(letters(r, n)), num(n))


@case("string.concat", SMALL, SMALL)
def _(r, f, n, m):
    return same(call(f, letters(r, n), letters(r, m, "d")), ("s", letters(r, n)[1] + letters(r, m, "d")[1]))


@case("string.charAt", LEN, range(6))
def _(r, f, n, i):
    return same(call(f, num(i), letters(r, n)), el(i, "c") if i < n else num(0))


@case("string.substring", range(6), range(6), LEN)
def _(r, f, at, n, m):
    s = letters(r, m)
    return same(call(f, num(at), num(n), s), ("s", s[1][at:at + n]))


@case("string.fromChar", ("unknown", 65, 10, 255))
def _(r, f, c):
    r.range[("c", 0)] = (0, 255, frozenset())
    c = el(0, "c") if c == "unknown" else num(c)
    return same(f(c), ("s", (c,)))


@case("string.newline")
def _(r, f):
    return same(f, text("\n"))


@case("string.split", LEN, ("unknown", 44))
def _(r, f, n, sep):
    s = letters(r, n)
    sep = unknown(("sep", 0)) if sep == "unknown" else num(sep)
    r.range[("sep", 0)] = (0, 255, frozenset())
    got = call(f, sep, s)
    out, part = [], []
    for c in s[1]:
        if r.equal(c, sep):
            out.append(("s", tuple(part)))
            part = []
        else:
            part.append(c)
    return same(got, lst(out + [("s", tuple(part))]))


def is_(r, c, k):
    return r.equal(c, num(k))


@case("string.lines", range(6))
def _(r, f, n):
    s = letters(r, n)
    got = f(s)
    out, part = [], []
    for c in s[1]:
        if is_(r, c, 10):
            out.append(("s", tuple(part[:-1] if part and is_(r, part[-1], 13) else part)))
            part = []
        else:
            part.append(c)
    return same(got, lst(out + ([("s", tuple(part))] if part else [])))


@case("string.foldChars", LEN)
def _(r, f, n):
    s = letters(r, n)
    want = el(9)
    for c in s[1]:
        want = ("t", "f", (want, c))
    return same(call(f, el(9), fn("f", 2), s), want)


@case("string.equal", SMALL, SMALL)
def _(r, f, n, m):
    a, b = letters(r, n), letters(r, m, "d")
    got = call(f, a, b)
    return same(got, n == m and all(r.equal(x, y) for x, y in zip(a[1], b[1])))


@case("string.startsWith", SMALL, SMALL)
def _(r, f, n, m):
    a, b = letters(r, n), letters(r, m, "d")
    got = call(f, a, b)
    return same(got, n <= m and all(r.equal(x, y) for x, y in zip(a[1], b[1])))


@case("string.chars", LEN)
def _(r, f, n):
    return same(f(letters(r, n)), lst(letters(r, n)[1]))


@case("string.trim", range(6))
def _(r, f, n):
    s = letters(r, n)
    got = f(s)
    i, j = 0, n
    while i < j and is_(r, s[1][i], 32):
        i += 1
    while i < j and is_(r, s[1][j - 1], 32):
        j -= 1
    return same(got, ("s", s[1][i:j]))


# ---------------------------------------------------------------- std/int
@case("int.iterate", LEN)
def _(r, f, n):
    want = el(0)
    for _ in range(n):
        want = ("t", "f", (want,))
    return same(call(f, num(n), fn("f"), el(0)), want)


@case("int.toString", (0, 7, 10, 255, M - 1, "unknown"))
def _(r, f, n):
    return same(f(el(0) if n == "unknown" else num(n)), r.digits(el(0)) if n == "unknown" else text(str(n)))


@case("int.parse", SMALL)
def _(r, f, n):
    s = letters(r, n)
    got = f(s)
    good = n > 0 and all(r.compare(c, num(48)) >= 0 and r.compare(c, num(57)) <= 0 for c in s[1])
    want = num(0)
    for c in s[1]:
        want = add(mul(want, num(10)), add(c, num(48), -1))
    return same(got, ok(want) if good else err(con("ParseErr")))


@case("int.parse", ("18446744073709551615", "00120", "9", "0", "48", "1 ", "-1", "1a2", "/", ":"))
def _(r, f, s):
    return same(f(text(s)), ok(num(int(s))) if s.isdigit() else err(con("ParseErr")))


@case("int.min")
def _(r, f):
    got = call(f, el(0), el(1))
    c = r.compare(el(0), el(1))
    return [(got in ([el(0)] if c < 0 else [el(1)] if c else [el(0), el(1)]), "gives %s" % name_of(got))]


@case("int.max")
def _(r, f):
    got = call(f, el(0), el(1))
    c = r.compare(el(0), el(1))
    return [(got in ([el(0)] if c > 0 else [el(1)] if c else [el(0), el(1)]), "gives %s" % name_of(got))]


def euclid(a, b):
    return a if not b else euclid(b, a % b)


def longest():
    """pairs below 2^64 on which Euclid's algorithm takes the most steps (Lamé)"""
    a, b = 1, 2
    while a + b < M:
        a, b = b, a + b
    return [(a, b), (b, a), (b - a, a), (a, b - a), (b, b), (b, 2)]


PAIRS = [(a, b) for a in range(8) for b in range(8)] + longest() + [(M - 1, M - 2), (M - 1, 3), (1 << 63, 3 << 40), (0, M - 1), (M - 1, 0)]


@case("int.gcd", PAIRS)
def _(r, f, p):
    return same(call(f, num(p[0]), num(p[1])), num(euclid(*p)))


@case("int.lcm", [p for p in PAIRS if not p[0] * p[1] or p[0] * p[1] // euclid(*p) < M])
def _(r, f, p):
    return same(call(f, num(p[0]), num(p[1])), num(p[0] * p[1] // euclid(*p) if p[0] and p[1] else 0))


def row(name):
    return of_bits(tuple((((name, i),), (False, True)) for i in range(64)))


def bitwise(op, py):
    def every(r, f):
        want = of_bits(tuple(boolean(op, x, y) for x, y in zip(row("a")[1], row("b")[1])))
        got = call(f, row("a"), row("b"))
        if got != want and got[0] == "b" and None in got[1]:
            raise Untold("some bits")
        return [(got == want, "does not give the bits it should")]

    def known(r, f, a, b):
        return same(call(f, num(a), num(b)), num(py(a, b)))
    return every, known


SAMPLES = (0, 1, 2, 3, 5, 0xF0F0, 1 << 63, (1 << 63) + 1, M - 1, 0x123456789ABCDEF0)
for _n, _op, _py in (("And", lambda x, y: x and y, lambda a, b: a & b), ("Or", lambda x, y: x or y, lambda a, b: a | b),
                     ("Xor", lambda x, y: x != y, lambda a, b: a ^ b)):
    _every, _known = bitwise(_op, _py)
    case("int.bit" + _n)(_every)
    case("int.bit" + _n, SAMPLES, SAMPLES)(_known)


# ---------------------------------------------------------------- std/array
SIZES = (0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 20, 31, 33, 63, 64, 65, 130)
FEW = (0, 1, 3, 4, 5, 16, 17, 40)


def filled(r, m, n):
    """an array of n distinct unknowns, each put in its place"""
    a = call(m["new"], num(n), el(99))
    for i in range(n):
        a = call(m["set"], num(i), el(i), a)
    return a


def holds(m, a, want):
    out = [(m["length"](a) == num(len(want)), "its length is %s, not %d" % (name_of(m["length"](a)), len(want)))]
    for i, x in enumerate(want):
        got = call(m["get"], num(i), a)
        out.append((got == some(x), "at %d of %d is %s, not %s" % (i, len(want), name_of(got), name_of(x))))
    for i in (len(want), len(want) + 1, len(want) + 17, M - 1):
        got = call(m["get"], num(i), a)
        out.append((got == NONE, "at %d, behind its end at %d, is %s" % (i, len(want), name_of(got))))
    return out


case("array.new", SIZES)(lambda r, m, n: holds(m, call(m["new"], num(n), el(0)), [el(0)] * n))
case("array.length", SIZES)(lambda r, m, n: same(m["length"](call(m["new"], num(n), el(0))), num(n)))
case("array.empty")(lambda r, m: holds(m, m["empty"], []))
case("array.set", SIZES)(lambda r, m, n: holds(m, filled(r, m, n), els(n)))
case("array.toList", SIZES)(lambda r, m, n: same(m["toList"](filled(r, m, n)), lst(els(n))))
case("array.fromList", SIZES)(lambda r, m, n: holds(m, m["fromList"](lst(els(n))), els(n)))


@case("array.get", SIZES)
def _(r, m, n):
    return holds(m, filled(r, m, n), els(n))


@case("array.set", FEW, ("first", "last", "behind", "far"))
def _(r, m, n, at):
    k = {"first": 0, "last": max(n, 1) - 1, "behind": n, "far": n + 21}[at]
    a = filled(r, m, n)
    return holds(m, call(m["set"], num(k), el(77), a), [el(77) if i == k else x for i, x in enumerate(els(n))]) + holds(m, a, els(n))


@case("array.mapIdx", FEW)
def _(r, m, n):
    a, out = filled(r, m, n), []
    for k in (*range(n), n, n + 1, n + 30):
        out += holds(m, call(m["mapIdx"], num(k), fn("f"), a), [("t", "f", (x,)) if i == k else x for i, x in enumerate(els(n))])
    return out


@case("array.truncate", FEW, (0, 1, 3, 4, 6, 16, 39, 40, 41))
def _(r, m, n, k):
    a = filled(r, m, n)
    b = call(m["truncate"], num(k), a)
    want = els(n)[:k]
    out = holds(m, b, want) + same(m["toList"](b), lst(want))
    return out + holds(m, call(m["set"], num(k), el(77), b), want) + holds(m, a, els(n))


@case("array.new", (500, 1025, 5000, 1 << 20, 1 << 33))
def _(r, m, n):
    """a large array, at a few of its places"""
    at = [0, 1, n // 4 - 1, n // 4, n // 2, n - 2, n - 1]
    a, out = call(m["new"], num(n), el(0)), []
    for i, k in enumerate(at):
        a = call(m["set"], num(k), el(k), a)
    for k in at:
        got = call(m["get"], num(k), a)
        out.append((got == some(el(k)), "at %d of %d is %s" % (k, n, name_of(got))))
    return out + [(call(m["get"], num(k), a) == want, "at %d of %d is another" % (k, n)) for k, want in ((n // 3, some(el(0))), (n, NONE))]


# ---------------------------------------------------------------- the types
TYPES = {
    "option.map": "(a -> b) -> Option a -> Option b",
    "option.andThen": "(a -> Option b) -> Option a -> Option b",
    "option.flatten": "Option (Option a) -> Option a",
    "option.unwrapOr": "a -> Option a -> a",
    "option.apply": "Option a -> Option (a -> b) -> Option b",
    "option.isSome": "Option a -> bool",
    "option.isNone": "Option a -> bool",
    "result.map": "(a -> b) -> Result a e -> Result b e",
    "result.mapErr": "(a -> b) -> Result t a -> Result t b",
    "result.andThen": "(a -> Result b e) -> Result a e -> Result b e",
    "result.flatten": "Result (Result a e) e -> Result a e",
    "result.unwrapOr": "a -> Result a e -> a",
    "result.ok": "Result a e -> Option a",
    "result.err": "Result a e -> Option e",
    "result.okOr": "e -> Option a -> Result a e",
    "result.apply": "Result a e -> Result (a -> b) e -> Result b e",
    "result.join": "Result a a -> a",
    "list.map": "(a -> b) -> List a -> List b",
    "list.filter": "(a -> bool) -> List a -> List a",
    "list.sum": "List int -> int",
    "list.product": "List int -> int",
    "list.any": "List bool -> bool",
    "list.all": "List bool -> bool",
    "list.head": "List a -> Option a",
    "list.tail": "List a -> Option (List a)",
    "list.reverse": "List a -> List a",
    "list.max": "List int -> Option int",
    "list.min": "List int -> Option int",
    "list.maxBy": "(a -> a -> bool) -> List a -> Option a",
    "list.minBy": "(a -> a -> bool) -> List a -> Option a",
    "list.allSome": "List (Option a) -> Option (List a)",
    "list.allOk": "List (Result a e) -> Result (List a) e",
    "list.skip": "int -> List a -> List a",
    "list.take": "int -> List a -> List a",
    "list.length": "List a -> int",
    "list.foldr": "(a -> b -> b) -> b -> List a -> b",
    "list.foldl": "b -> (b -> a -> b) -> List a -> b",
    "list.repeat": "int -> a -> List a",
    "list.filterMap": "(a -> Option b) -> List a -> List b",
    "list.concat": "List a -> List a -> List a",
    "list.sortBy": "(a -> a -> bool) -> List a -> List a",
    "list.join": "string -> List string -> string",
    "list.range": "int -> int -> List int",
    "list.zip": "(a -> b -> c) -> List a -> List b -> List c",
    "list.flatMap": "(a -> List b) -> List a -> List b",
    "list.flatten": "List (List a) -> List a",
    "string.length": "string -> int",
    "string.concat": "string -> string -> string",
    "string.charAt": "int -> string -> int",
    "string.substring": "int -> int -> string -> string",
    "string.fromChar": "int -> string",
    "string.split": "int -> string -> List string",
    "string.lines": "string -> List string",
    "string.foldChars": "a -> (a -> int -> a) -> string -> a",
    "string.equal": "string -> string -> bool",
    "string.startsWith": "string -> string -> bool",
    "string.chars": "string -> List int",
    "string.trim": "string -> string",
    "string.newline": "string",
    "int.iterate": "int -> (a -> a) -> a -> a",
    "int.toString": "int -> string",
    "int.parse": "string -> Result int ParseErr",
    "int.min": "int -> int -> int",
    "int.max": "int -> int -> int",
    "int.gcd": "int -> int -> int",
    "int.lcm": "int -> int -> int",
    "int.bitXor": "int -> int -> int",
    "int.bitAnd": "int -> int -> int",
    "int.bitOr": "int -> int -> int",
    "array.length": "Array a -> int",
    "array.empty": "Array a",
    "array.new": "int -> a -> Array a",
    "array.mapIdx": "int -> (a -> a) -> Array a -> Array a",
    "array.get": "int -> Array a -> Option a",
    "array.set": "int -> a -> Array a -> Array a",
    "array.toList": "Array a -> List a",
    "array.fromList": "List a -> Array a",
    "array.truncate": "int -> Array a -> Array a",
}
HELD = {"option": ["None", "Some"], "result": ["Ok", "Err"], "list": ["Nil", "Cons"], "int": ["ParseErr"]}


# ---------------------------------------------------------------- the judgement
MODULES = ("option", "result", "list", "string", "int", "array")


def library():
    def source(name):
        p = os.path.join(build.REPO, "ticc", "src", name + ".tic")
        if not name.startswith("std/") or not os.path.exists(p):
            raise Broken("no module %s" % name)
        with open(p) as f:
            return f.read()
    return Library(source)


def judge(lib, f, shape, body):
    """[(ok, text)] over the paths, how many, and what could not be told"""
    module, name = f.split(".")

    def on(r):
        m = lib.on(r).module("std/" + module)
        if name not in m:
            raise Broken("std/%s exports no %s" % (module, name))
        try:
            return body(r, m if module == "array" else m[name], *shape)
        except Stuck as e:
            return [(False, str(e))]
        except (IndexError, KeyError, TypeError) as e:
            return [(False, "gives a value of another shape (%s)" % type(e).__name__)]
    out, n = [], 0
    for res in paths(on):
        n += 1
        out += res
    return out, n


TYPE = re.compile(r"->|[()]|\w+")


def declared(lib, f):
    """the type a function is declared with"""
    module, name = f.split(".")
    try:
        for it in lib.module("std/" + module)[1]:
            if it[0] == "let" and it[2] == name:
                return it[4]
    except Broken:
        pass
    return None


def where(f):
    module, name = f.split(".")
    path = os.path.join(build.REPO, STD, module + ".tic")
    line = 1
    if os.path.exists(path):
        with open(path) as h:
            for i, l in enumerate(h, 1):
                if l.startswith("export let %s " % name):
                    line = i
    return "%s/%s.tic:%d" % (STD, module, line)


def run(prog, rep):
    lib = library()
    told, found, untold = {}, {}, {}
    n = 0
    for f, shape, body in CASES:
        try:
            out, k = judge(lib, f, shape, body)
        except Broken as e:
            out, k = [(False, str(e))], 1
        except Untold as e:
            untold.setdefault(f, []).append("%s: %s" % (shape, e))
            continue
        except RecursionError:
            untold.setdefault(f, []).append("%s: too deep" % (shape,))
            continue
        n += k
        told[f] = told.get(f, 0) + len(out)
        for good, t in out:
            if not good:
                found.setdefault(f, []).append("given %s: %s" % (" ".join(map(str, shape)) or "anything", t))
    for f in dict.fromkeys(f for f, _, _ in CASES):
        if f not in told:
            raise Anchor("nothing can be told of std/%s: %s" % (f.replace(".", "'s "), untold.get(f, ["?"])[0]))
        bad = found.get(f)
        t = declared(lib, f)
        if f in TYPES and t is not None and not covers(t, read_type(TYPE.findall(TYPES[f])), {}):
            bad = ["is not of type %s" % TYPES[f]] + (bad or [])
        rep.ob(not bad, "std:" + f, "std/%s" % f + (": " + "; ".join(bad[:3]) if bad else " gives what it promises"), where(f))
    for m, cs in HELD.items():
        try:
            have = {c for it in lib.module("std/" + m)[1] if it[0] == "type" and it[1] for c, _ in it[2]}
        except Broken:
            have = set()
        for c in cs:
            rep.ob(c in have, "std:%s.%s" % (m, c), "std/%s exports %s" % (m, c) + ("" if c in have else ": it does not"), "%s/%s.tic" % (STD, m))
    rep.count("paths", n)
    rep.count("untold", sum(map(len, untold.values())))
    rep.floor("functions", len(told), 60)
    rep.floor("paths", n, 1000)
