"""C29: the verifier of core programs accepts the well-formed ones and stops at every other."""
import os
from concurrent.futures import ProcessPoolExecutor
from multiprocessing import get_context
from ..mir import Anchor
from ..absint import State
from ..heap import Heap
from ..machine import bounded, lean
from ..core import Reader, Bridge, Checker, Bad, SIG, alike, show
from ..irval import IR
from . import c22

RULE = ("every well-formed program of the catalogue is let through by the verifier; every program made from one of them by one change that "
        "breaks a rule of scope, of arity or of types, wherever in it, ends in a panic of the verifier")
ASSUMPTIONS = ["that a match has a branch for every constructor, and that type arguments are in scope, is not what the verifier is asked for"]


class Lenient(Checker):
    """without the rules the verifier is not asked for"""

    def expr(self, e):
        k = e[0]
        if k == "match":
            d = self.expr(e[1])
            if d[0] != "named" or not e[2]:
                raise Bad("what is matched is of no named type")
            out = None
            for c, xs, b in e[2]:
                if c not in self.ctors or self.ctors[c][0] != d[1]:
                    raise Bad("a branch of a match is of another type")
                n, vs, fs = self.ctors[c]
                if len(fs) != len(xs) or len(vs) != len(d[2]):
                    raise Bad("a branch binds the wrong number of fields")
                t = self.within(tuple(zip(xs, (self.subst(f, dict(zip(vs, d[2]))) for f in fs))), b)
                if out is not None:
                    self.expect(t, out, "the branches of a match have different types")
                out = t
            return out
        if k == "con":
            if e[1] not in self.ctors:
                raise Bad("an unknown constructor")
            n, vs, fs = self.ctors[e[1]]
            if len(vs) != len(e[2]) or len(fs) != len(e[3]):
                raise Bad("a constructor has the wrong number of arguments")
            for t in e[2]:
                self.argument(t)
            for x, t in zip(e[3], fs):
                self.expect(self.expr(x), self.subst(t, dict(zip(vs, e[2]))), "a field has the wrong type")
            return ("named", n, e[2])
        if k == "inst":
            t = self.expr(e[1])
            if t[0] != "abs":
                raise Bad("what is given a type takes none")
            self.argument(e[2])
            return self.subst(t[2], {t[1]: e[2]})
        return super().expr(e)

    loose = False

    def argument(self, t):
        """of a program with a type argument that is not in scope, nothing is known"""
        try:
            self.ty(t)
        except Bad:
            Lenient.loose = True

    def subst(self, t, m):
        from ..core import subst
        return subst(t, m)


class Picky(Checker):
    """with types that differ in the names of their variables being different"""

    def expect(self, got, want, what):
        if got != want:
            raise Bad(what)


def bad(checker, p):
    try:
        checker(p)
        return None
    except Bad as e:
        return str(e)


PROGRAMS = """
numbers ;; (def a int 1) (export b bool (< (+ a 2) (* a (- a (/ a (% a 3)))))) (def c bool (if b (== a 1) (!= (if b a 2) 3))) (export d bool (if (>= a 1) (> a 1) (<= a 2)))
texts ;; (def s str "x") (def n int (len (concat s (sub 1 (char 0 s) s)))) (export t str (concat (from n) (show (len s))))
functions ;; (def f (-> int bool int) (fn (x int y bool) (if y x 0))) (def g (-> int int) (fn (z int) (f (f z true) (< z 2)))) (export h (-> int (-> bool str)) (fn (u int) (fn (v bool) (if v "a" (show (g u)))))) (def k int (f 1 (if true false true))) (export none (-> int) (fn () (g 3)))
lets ;; (export a int (let x 1 (let y (let z (+ x 1) (* z x)) (- y x)))) (def b (-> int int) (fn (p int) (let q (< p 1) (let r (fn (w int) (if q w p)) (r p)))))
recursion ;; (export a (-> int int) (fn (n int) (rec go (-> int int) (fn (i int) (if (< i 1) 0 (go (- i 1)))) (+ (go n) (go 1))))) (def b int (rec one int 1 one))
types ;; (type (Opt 'o) (None) (Some 'o)) (type (Pair 'p 'q) (Both 'p 'q)) (type Tri (A) (B int) (C bool (Opt int))) (def a (Opt int) (new Some (int) 3)) (export b int (match a ((None) 0) ((Some x) x))) (def c (Pair int (Opt bool)) (new Both (int (Opt bool)) b (new None (bool)))) (export d bool (match c ((Both l r) (match r ((None) (< l 1)) ((Some y) y))))) (def e Tri (new C () d (new None (int)))) (export f int (match e ((A) 0) ((B m) m) ((C p q) (if p (match q ((None) 1) ((Some z) z)) 2))))
lists ;; (type (List 'l) (Nil) (Cons 'l (List 'l))) (def a (List int) (new Cons (int) 1 (new Cons (int) 2 (new Nil (int))))) (export sum int (rec go (-> (List int) int) (fn (xs (List int)) (match xs ((Nil) 0) ((Cons h t) (+ h (go t))))) (go a)))
polymorphism ;; (type (Opt 'o) (None) (Some 'o)) (def id (all 'a (-> 'a 'a)) (pi 'b (fn (x 'b) x))) (export n int ((at id int) 1)) (def k (all 'c (all 'd (-> 'c (-> 'd 'c)))) (pi 'e (pi 'f (fn (y 'e) (fn (z 'f) y))))) (export m bool (((at (at k bool) int) true) n)) (def some (all 'g (-> 'g (Opt 'g))) (pi 'h (fn (w 'h) (new Some ('h) w)))) (def o (Opt (Opt int)) ((at some (Opt int)) ((at some int) 2))) (export r (-> int (Opt int)) (fn (i int) (match o ((None) (new None (int))) ((Some v) v)))) (def t (all 'i (-> (all 'j (-> 'j 'i)) 'i)) (pi 'k (fn (q (all 'l (-> 'l 'k))) ((at q int) 1)))) (export u int ((at t int) (pi 'm (fn (p 'm) 7))))
traps ;; (type (Opt 'o) (None) (Some 'o)) (export a int (if true 1 (trap "no" int))) (def b (all 'a (-> 'a (Opt 'a))) (pi 'b (fn (x 'b) (trap "none" (Opt 'b))))) (export c (-> int int) (trap "f" (-> int int))) (def d int (c 1))
higher order ;; (type (Fun 'm 'n) (Fun0 (-> 'm 'n)) (Fun1 (all 'r (-> 'r 'm)))) (def app (all 'a (all 'b (-> (Fun 'a 'b) 'a 'b))) (pi 'c (pi 'd (fn (f (Fun 'c 'd) x 'c) (match f ((Fun0 g) (g x)) ((Fun1 h) (trap "no" 'd))))))) (export n int ((at (at app int) int) (new Fun0 (int int) (fn (y int) (+ y 1))) 2))
same types ;; (def x (all 'a (-> 'a 'a)) (pi 'b (fn (v 'b) v))) (def y (all 'c (all 'd (-> 'c 'd 'd))) (pi 'e (pi 'f (fn (w 'e u 'f) u)))) (export z (-> (all 'g (-> 'g 'g)) int) (fn (i (all 'h (-> 'h 'h))) ((at i int) 1))) (def n int (z x)) (def o int (z (pi 'j (fn (q 'j) q))))
many ;; (type (Many 'm0 'm1 'm2 'm3 'm4 'm5 'm6) (Many0 'm0 'm1 'm2 'm3 'm4 'm5 'm6)) (type Wide (W0) (W1 int) (W2) (W3 int) (W4) (W5 int) (W6)) (def f (-> int int int int int bool int int) (fn (x0 int x1 int x2 int x3 int x4 int x5 bool x6 int) (if x5 x0 x6))) (export a int (f 0 1 2 3 4 true 6)) (export b (Many int int int int int int str) (new Many0 (int int int int int int str) 0 1 2 3 4 5 "x")) (export c str (match b ((Many0 y0 y1 y2 y3 y4 y5 y6) y6))) (export d (-> Wide int) (fn (w Wide) (match w ((W0) 0) ((W1 z1) z1) ((W2) 2) ((W3 z3) z3) ((W4) 4) ((W5 z5) z5) ((W6) 6))))
two kinds ;; (type Two (L) (R int)) (type One (M) (N int)) (def a int (match (new L ()) ((L) 1) ((R x) 2))) (def b (-> One int) (fn (o One) (match o ((M) 1) ((N y) y)))) (export c int (b (new M ())))
dropped ;; (type (Opt 'o) (None) (Some 'o)) (export a int (let f (if true (fn (x int) 1) (fn (y int) 2)) (let g (fn (w int u (Opt int)) 3) 4))) (def b int (let i (pi 'b (fn (v 'b) v)) (let j (pi 'c (pi 'd (fn (s int t 'c) 5))) 6))) (def k int (let m (match (new None (int)) ((None) (fn (p int) 1)) ((Some q) (fn (r int) 2))) 8)) (def l int (let n (fn (h int) (new Some ((-> int int)) (fn (z int) z))) 9))
"""


def programs():
    out = {}
    for line in PROGRAMS.strip().splitlines():
        name, text = line.split(" ;; ")
        out[name] = Reader(text).program()
    return out


# ---- changes
def simple(p):
    ns = len(p["names"])
    return [("bool", 1), ("int", 7), ("str", "q")] + [("name", i) for i in range(ns + 1)]


def types_near(p):
    out = ["int", "bool", "str"]
    for n, vs, cs in p["types"]:
        out += [("named", n, ("int",) * k) for k in {len(vs), len(vs) + 1, max(0, len(vs) - 1)}]
        out += [("named", c, ()) for c, fs in cs[:1]]
    out += [("var", v) for v in range(p["next"])]
    out += [("named", len(p["names"]), ()), ("fn", ("int",), "int"), ("fn", ("int", "bool"), "int")]
    return out


def edits_of_type(p, t):
    """types with one change"""
    for x in types_near(p):
        if x != t:
            yield x
    if isinstance(t, tuple):
        if t[0] == "named":
            for i, x in enumerate(t[2]):
                yield t[:2] + (t[2][:i] + t[2][i + 1:],)
                yield t[:2] + (t[2][:i] + (x, x) + t[2][i + 1:],)
                for y in edits_of_type(p, x):
                    yield t[:2] + (t[2][:i] + (y,) + t[2][i + 1:],)
        elif t[0] == "fn":
            yield ("fn", t[1] + ("int",), t[2])
            for i, x in enumerate(t[1]):
                yield ("fn", t[1][:i] + t[1][i + 1:], t[2])
                for y in edits_of_type(p, x):
                    yield ("fn", t[1][:i] + (y,) + t[1][i + 1:], t[2])
            for y in edits_of_type(p, t[2]):
                yield ("fn", t[1], y)
        elif t[0] == "abs":
            yield t[2]
            for v in range(p["next"]):
                if v != t[1]:
                    yield ("abs", v, t[2])
            for y in edits_of_type(p, t[2]):
                yield ("abs", t[1], y)


def lists(xs):
    """a list with an element missing, one twice, two the other way round"""
    for i in range(len(xs)):
        yield xs[:i] + xs[i + 1:]
        yield xs[:i + 1] + xs[i:]
    for i in range(len(xs) - 1):
        yield xs[:i] + (xs[i + 1], xs[i]) + xs[i + 2:]


def renamed(xs, p):
    for i, x in enumerate(xs):
        for n in range(len(p["names"]) + 1):
            if n != x:
                yield xs[:i] + (n,) + xs[i + 1:]


def edits(p, e):
    """expressions with one change"""
    k = e[0]
    for x in simple(p):
        if x != e:
            yield x
    if k not in ("lam", "pi"):
        yield ("lam", (), e)
    yield ("call", e, ())

    def within(i):
        for y in edits(p, e[i]):
            yield e[:i] + (y,) + e[i + 1:]

    def among(i):
        for j, x in enumerate(e[i]):
            for y in edits(p, x):
                yield e[:i] + (e[i][:j] + (y,) + e[i][j + 1:],) + e[i + 1:]

    def typed(i):
        for y in edits_of_type(p, e[i]):
            yield e[:i] + (y,) + e[i + 1:]

    if k == "call":
        yield e[1]
        for xs in lists(e[2]):
            yield ("call", e[1], xs)
        yield from within(1)
        yield from among(2)
    elif k == "if":
        yield ("if", e[2], e[1], e[3])
        for i in (1, 2, 3):
            yield e[i]
            yield from within(i)
    elif k == "op":
        for o in ("Add", "Less", "Modulo", "NotEqual", "Subtract", "Multiply", "Divide", "Greater", "GreaterEq", "LessEq", "Equal"):
            if o != e[2]:
                yield ("op", e[1], o, e[3])
        yield from within(1)
        yield from within(3)
    elif k == "intr":
        for i in SIG:
            if i != e[1]:
                yield ("intr", i, e[2])
        for xs in lists(e[2]):
            yield ("intr", e[1], xs)
        yield from among(2)
    elif k == "lam":
        yield e[2]
        yield ("lam", (), e)
        for xs in lists(e[1]):
            yield ("lam", xs, e[2])
        for xs in renamed(tuple(n for n, t in e[1]), p):
            yield ("lam", tuple(zip(xs, (t for n, t in e[1]))), e[2])
        for i, (n, t) in enumerate(e[1]):
            for y in edits_of_type(p, t):
                yield ("lam", e[1][:i] + ((n, y),) + e[1][i + 1:], e[2])
        yield from within(2)
    elif k == "match":
        cs = [c for t in p["types"] for c, fs in t[2]]
        yield from within(1)
        for bs in lists(e[2]):
            yield e[:2] + (bs,)
        yield e[:2] + ((),)
        for i, (c, xs, b) in enumerate(e[2]):
            put = lambda y: e[:2] + (e[2][:i] + (y,) + e[2][i + 1:],)
            for d in cs + [e[2][i][1][0] if xs else 0]:
                if d != c:
                    yield put((d, xs, b))
            for ys in list(lists(xs)) + list(renamed(xs, p)) + [xs + (0,)]:
                yield put((c, ys, b))
            for y in edits(p, b):
                yield put((c, xs, y))
    elif k == "con":
        for c in range(len(p["names"]) + 1):
            if c != e[1]:
                yield ("con", c) + e[2:]
        for ts in lists(e[2]):
            yield ("con", e[1], ts, e[3])
        for i, t in enumerate(e[2]):
            for y in edits_of_type(p, t):
                yield ("con", e[1], e[2][:i] + (y,) + e[2][i + 1:], e[3])
        for xs in list(lists(e[3])) + [e[3] + (("int", 1),)]:
            yield ("con", e[1], e[2], xs)
        yield from among(3)
    elif k == "let":
        yield e[3]
        for (n,) in renamed((e[1],), p):
            yield ("let", n) + e[2:]
        yield from within(2)
        yield from within(3)
    elif k == "rec":
        yield e[4]
        yield ("let", e[1], e[3], e[4])
        for (n,) in renamed((e[1],), p):
            yield ("rec", n) + e[2:]
        yield from typed(2)
        yield from within(3)
        yield from within(4)
    elif k == "pi":
        yield e[2]
        for v in range(p["next"]):
            if v != e[1]:
                yield ("pi", v, e[2])
        yield from within(2)
    elif k == "inst":
        yield e[1]
        yield from typed(2)
        yield from within(1)
        yield ("inst", e, "int")
    elif k == "trap":
        yield from typed(2)


def changed(p):
    for i, (n, x, t, e) in enumerate(p["defs"]):
        put = lambda *d: dict(p, defs=p["defs"][:i] + (d,) + p["defs"][i + 1:])
        for y in edits(p, e):
            yield put(n, x, t, y)
        for y in edits_of_type(p, t):
            yield put(n, x, y, e)
        for (m,) in renamed((n,), p):
            yield put(m, x, t, e)
    for ds in lists(p["defs"]):
        yield dict(p, defs=ds)
    for ts in lists(p["types"]):
        yield dict(p, types=ts)
    for i, (n, vs, cs) in enumerate(p["types"]):
        put = lambda *d: dict(p, types=p["types"][:i] + (d,) + p["types"][i + 1:])
        for (m,) in renamed((n,), p):
            yield put(m, vs, cs)
        for ws in lists(vs):
            yield put(n, ws, cs)
        for w in range(p["next"]):
            yield put(n, vs + (w,), cs)
            if vs and w != vs[0]:
                yield put(n, (w,) + vs[1:], cs)
        for ds in lists(cs):
            yield put(n, vs, ds)
        for j, (c, fs) in enumerate(cs):
            case = lambda d, gs: put(n, vs, cs[:j] + ((d, gs),) + cs[j + 1:])
            for (d,) in renamed((c,), p):
                yield case(d, fs)
            for gs in list(lists(fs)) + [fs + ("int",)]:
                yield case(c, gs)
            for m, t in enumerate(fs):
                for y in edits_of_type(p, t):
                    yield case(c, fs[:m] + (y,) + fs[m + 1:])


def judged(p):
    """True: must be let through, a text: why not; None: not decided by the rules"""
    Lenient.loose = False
    b = bad(Lenient, p)
    if Lenient.loose:
        return None
    if b:
        return b
    return True if bad(Checker, p) is None and bad(Picky, p) is None else None


def accepts(prog, f, p, values=None):
    it = Heap(prog)
    br = Bridge(prog, it.box)
    st = State()
    root = ("mem", ("sym", "program"))
    st.env[root] = br.program(st, p)
    args = [("ptr", root, ())]
    if values is not None:
        at = ("mem", ("sym", "values"))
        st.env[at] = ("arr", tuple(("tup", (br.expr(st, e), br.ty(st, t))) for e, t in values))
        args.append(("ptr", at, ()))
    outs = it.start(f, args, st)
    if it.loops:
        raise Anchor("verifying does not end in this analysis")
    if outs and it.diverged:
        raise Anchor("a program of which it is not known if it is let through: " + show(p)[:300])
    return bool(outs)



SHARED = None


def part(job):
    prog, f = SHARED
    out = []
    for kind, title, p, values, want in job:
        got = accepts(prog, f if values is None else SHARED_VALUES, p, values)
        if got != (want is True):
            out.append((kind, title, want, show(p)))
    return len(job), out


SHARED_VALUES = None


def followed(some):
    return bounded(part, 200)(some)


def run(prog, rep):
    global SHARED, SHARED_VALUES
    own = [f for f in prog.fns.values() if f.crate == "ticc_core" and f.kind == "fn" and not f.derived and prog.tstr(f.locals[0]) == "()" and f.nargs]
    of = lambda f, i: prog.tstr(f.locals[i])
    one = [f for f in own if f.nargs == 1 and of(f, 1).startswith("&" + IR + "Program")]
    two = [f for f in own if f.nargs == 2 and of(f, 1).startswith("&" + IR + "Program") and of(f, 2).startswith("&[(" + IR + "Expr")]
    if len(one) != 1 or len(two) != 1:
        raise Anchor("verifier: %d, %d" % (len(one), len(two)))
    SHARED, SHARED_VALUES = (prog, one[0]), two[0]
    deep = os.environ.get("VERIF_TIER") == "thorough"
    jobs, undecided = [], 0
    for title, p in programs().items():
        if bad(Checker, p):
            raise Anchor("the catalogue: %s: %s" % (title, bad(Checker, p)))
        jobs.append(("as it is", title, p, None, True))
        for q in changed(p):
            j = judged(q)
            if j is None:
                undecided += 1
                continue
            jobs.append(("changed", title, q, None, j))
        # values of a type
        for t, e in values_of(p):
            jobs.append(("value", title, p, (e,), judge_value(p, e)))
    # what the optimizer is looked at with
    for e in c22.selected(deep):
        p = Reader(c22.text_of(e)).program()
        if judged(p) is True:
            jobs.append(("as it is", "optimizer", p, None, True))
    rep.count("changes the rules do not decide", undecided)
    parts = [jobs[i:i + 50] for i in range(0, len(jobs), 50)]
    wrong = []
    with ProcessPoolExecutor(8, mp_context=get_context("fork"), initializer=lean) as pool:
        for n, b in pool.map(followed, parts):
            rep.count("programs verified", n)
            wrong += b
    by = {}
    for kind, title, want, text in wrong:
        by.setdefault((title, "must be let through" if want is True else want), []).append(text)
    for (title, why), texts in sorted(by.items()):
        rep.ob(False, "%s: %s: %s" % (one[0].id, title, why), ("stops at " if why.startswith("must") else "lets through ") + texts[0][:600], one[0].loc())
    for title in list(programs()) + ["optimizer"]:
        rep.ob(not any(k[0] == title for k in by), "%s: %s" % (one[0].id, title), "", one[0].loc())
    rep.floor("programs verified", len(jobs), 8000)
    rep.floor("sound programs", sum(1 for j in jobs if j[4] is True), 1000)


def values_of(p):
    out = []
    fresh = len(p["names"])
    ds = [(d[0], d[2]) for d in p["defs"]]
    for n, t in ds:
        out.append((t, (("name", n), t)))
        for m, u in ds:
            if m != n:
                out.append((t, (("name", m), t)))
    out.append(("int", (("name", fresh), "int")))
    out.append(("int", (("op", ("int", 1), "Add", ("bool", 1)), "int")))
    return [(t, e) for t, e in out]


def judge_value(p, v):
    e, t = v
    q = dict(p, names=p["names"] + ("v",), defs=p["defs"] + ((len(p["names"]), None, t, e),))
    # types are written once: those of a value are those of the definitions
    try:
        c = Lenient(p)
        got = c.expr(e)
    except Bad as b:
        return str(b)
    return True if alike(got, t) else "a value has another type than it says"
