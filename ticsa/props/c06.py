"""C06: running the bytecode of a core program gives what the program denotes, whatever the collector does meanwhile."""
import os
import re
from concurrent.futures import ProcessPoolExecutor
from multiprocessing import get_context
from ..mir import Anchor
from ..core import wrong
from ..machine import bounded, lean
from ..vm import Vm, Untold
from . import c30

RULE = ("on known core programs with unknown numbers in them, the evaluator that makes code of a program first and runs it on a heap of its "
        "own gives, on every path there is, one value for each expression it is given, in order: the value the expression denotes, or the "
        "failure it denotes with its message; compilation, linking, the machine, its heap and its collector are followed word for word")
ASSUMPTIONS = ["what the operators and primitives give for their operands is C03",
               "texts whose length is not known are left out"]

L = "(new Nil (int))"


def cons(*xs):
    out = L
    for x in reversed(xs):
        out = "(new Cons (int) %s %s)" % (x, out)
    return out


# sums a list so that every place in it matters
SUM = "(rec sum (-> (List int) int) (fn (sl (List int)) (match sl ((Nil) 3) ((Cons sh st) (- sh (* 2 (sum st)))))) REST)"
# calls f as often as it says, with what it gave before
AGAIN = "(rec again (-> (-> int int) int int int) (fn (gf (-> int int) gi int ga int) (if (< gi 1) ga (again gf (- gi 1) (gf ga)))) REST)"
# garbage: makes lists and drops them
WASTE = """(rec waste (-> int (List int) int) (fn (wi int wl (List int)) (if (< wi 1) 5
    (waste (- wi 1) (new Cons (int) wi (new Cons (int) n (new Nil (int))))))) REST)"""


def nest(*parts):
    out = parts[-1]
    for p in reversed(parts[:-1]):
        out = p.replace("REST", out)
    return out


def some(x):
    return "(new Some (int) %s)" % x


def taken(names, rest):
    """subtracts what is in some options"""
    out = rest
    for i, x in enumerate(names):
        out = "(match %s ((None) %d) ((Some t%s) (- t%s (* 2 %s))))" % (x, i, x, x, out)
    return out


def twelve():
    names = ["c%d" % i for i in range(12)]
    out = "(let f (fn (x int) %s) (let w (waste 9 (new Nil (int))) (f w)))" % taken(names, "x")
    for i, c in enumerate(names):
        out = "(let %s %s %s)" % (c, some(["n", "m", "k", str(i)][i % 4]), out)
    return out


def nine():
    names = ["c%d" % i for i in range(9)]
    vals = " ".join(some(["n", "m", str(i)][i % 3]) for i in range(9))
    return "(let d (new W9 () %s) (let w (waste 9 (new Nil (int))) (match d ((W0) 1) ((W9 %s) %s))))" % (vals, " ".join(names), taken(names, "w"))


WIDE = "(type Wide (W0) (W9 %s))" % " ".join(["(Opt int)"] * 9)
BODIES = {
    # calls in place of the function itself
    "tail call": "(rec f (-> int int int) (fn (x int a int) (if (< x 1) (- a n) (f (- x 1) (- m a)))) (f 3 k))",
    "tail call, arguments swapped": "(rec f (-> int int int int) (fn (x int a int d int) (if (< x 1) (- a d) (f (- x 1) d a))) (- (f 3 n m) (f 2 m k)))",
    "tail call, arguments turned": "(rec f (-> int int int int int) (fn (x int a int d int e int) (if (< x 1) (- a (- d e)) (f (- x 1) d e a))) (f 4 n m k))",
    "tail call under let": "(rec f (-> int int int) (fn (x int a int) (let y (- a x) (let z (- y n) (if (< x 1) (- y z) (f (- x 1) (- z y)))))) (f 3 m))",
    "tail call in let": "(rec f (-> int int int) (fn (x int a int) (if (< x 1) a (let y (- a n) (f (- x 1) (- y m))))) (- (f 3 k) n))",
    "tail call in match": """(rec f (-> (List int) int int) (fn (l (List int) a int) (match l ((Nil) (- a n)) ((Cons h t) (let y (- h a) (f t (- y m))))))
        (f %s k))""" % cons("n", "m", "7"),
    "tail call in match in match": """(rec f (-> (List int) (Opt int) int) (fn (l (List int) o (Opt int)) (match l ((Nil) (match o ((None) n) ((Some x) x)))
        ((Cons h t) (match o ((None) (f t (new Some (int) h))) ((Some y) (if (< 1 2) (f t (new Some (int) (- h y))) 4)))))) (f %s (new None (int))))""" % cons("n", "m", "k"),
    "tail call, captures": "(let u (- n m) (let v (- m k) (rec f (-> int int int) (fn (x int a int) (if (< x 1) (- a u) (f (- x 1) (- v a)))) (- (f 3 k) v))))",
    "tail call under let, captures": "(let u (- n m) (let v k (rec f (-> int int int) (fn (x int a int) (let y (- v a) (if (< x 1) (- y u) (let z (- y x) (f (- x 1) z))))) (f 2 n))))",
    "tail call in both": "(rec f (-> int int int) (fn (x int a int) (if (< x 1) a (if (< a m) (f (- x 1) (- a n)) (f (- x 1) (- k a))))) (f 2 n))",
    "tail call, others not": "(rec f (-> int int int) (fn (x int a int) (if (< x 1) (- a n) (f (- x 1) (- a (f 0 m))))) (f 3 k))",
    "tail call of another": "(let g (fn (x int y int) (- x (- y n))) (rec f (-> int int int) (fn (x int a int) (if (< x 1) (g a m) (f (- x 1) (g a k)))) (f 2 5)))",
    "tail call of argument": "(let g (fn (h (-> int int) x int) (h x)) (- (g (fn (y int) (- y n)) m) (g (fn (y2 int) (- k y2)) n)))",
    "tail call of outer": """(rec f (-> int int int) (fn (x int a int) (rec g (-> int int) (fn (y int) (if (< y 1) (if (< x 1) a (f (- x 1) (- a y))) (g (- y 1)))) (g 2))) (f 2 n))""",
    "tail call, own name": "(rec f (-> int (-> int int)) (fn (x int) (if (< x 1) (fn (y int) (- y n)) (f (- x 1)))) (- ((f 2) m) ((f 1) k)))",
    "tail call in a lambda within": "(rec f (-> int int int) (fn (x int a int) (let h (fn (z int) (f (- x 1) z)) (if (< x 1) a (h (- a n))))) (f 2 m))",
    "tail call, no arguments": "(rec f (-> int) (fn () (if (< n m) k (f))) (if (< n m) (f) 1))",
    "tail call, one name twice": "(rec f (-> int int int) (fn (x int a int) (if (< x 1) a (f a x))) (f 0 n))",
    "call with the result used": "(rec f (-> int int) (fn (x int) (if (< x 1) n (let y (f (- x 1)) (- y m)))) (f 4))",
    "type call in tail": "(rec f (all 'p (-> int 'p int)) (pi 'q (fn (x int y 'q) (if (< x 1) n ((at f 'q) (- x 1) y)))) (- ((at f int) 2 m) ((at f bool) 1 b)))",
    "if in frame of if": "(- (if (< n m) (let x (- n m) (if (< x k) (- x 1) (let y x (- y k)))) (let z m (- z n))) (if b k n))",
    "match without bindings": "(match (if b (new K0 ()) (new K1 () n)) ((K0) (let x m (- x n))) ((K1 a) (- a m)) ((K2 a2 a3) 2) ((K3 a4 a5 a6) 3) ((K4 a7 a8 a9 a10) 4))",
    "match of many": "(- (match (if b (if c (new K0 ()) (new K1 () n)) (if c (new K2 () n m) (new K3 () n m k))) ((K3 a4 a5 a6) (- a4 (- a5 a6))) ((K1 a) a) ((K4 a7 a8 a9 a10) 4) ((K0) 7) ((K2 a2 a3) (- a2 a3))) n)",
    # what is kept while there is garbage
    "list kept": nest(SUM, WASTE, "(let l %s (let w (waste 9 (new Nil (int))) (- (sum l) w)))" % cons("n", "m", "k", "n")),
    "list grown": nest(SUM, "(rec up (-> int (List int) (List int)) (fn (ui int ul (List int)) (if (< ui 1) ul (up (- ui 1) (new Cons (int) (- n ui) ul)))) (sum (up 12 (new Nil (int)))))"),
    "list grown, not in tail": nest(SUM, "(rec up (-> int (List int)) (fn (ui int) (if (< ui 1) (new Nil (int)) (new Cons (int) (- n ui) (up (- ui 1))))) (- (sum (up 9)) m))"),
    "list kept and grown": nest(SUM, WASTE, """(rec up (-> int (List int)) (fn (ui int) (if (< ui 1) (new Cons (int) m (new Nil (int))) (let w (waste 3 (new Nil (int))) (new Cons (int) (- k ui) (up (- ui 1))))))
        (let l (up 5) (let w (waste 6 l) (- (sum l) w))))"""),
    "list shared": nest(SUM, WASTE, "(let l %s (let p (new Pair ((List int) (List int)) l (new Cons (int) 5 l)) (let w (waste 8 l) (match p ((Pair x y) (- (sum x) (- (sum y) (sum l))))))))" % cons("n", "m")),
    "function kept": nest(WASTE, "(let f (fn (x int) (- x n)) (let g (fn (y int) (f (- y m))) (let w (waste 9 (new Nil (int))) (- (g k) (f w)))))"),
    "function kept, captures": nest(WASTE, "(let u (- n m) (let p (new Pair (int int) m k) (let f (fn (x int) (match p ((Pair y z) (- x (- y (- z u)))))) (let w (waste 9 (new Nil (int))) (f w)))))"),
    "function kept in data": nest(WASTE, "(let p (new Pair ((-> int int) int) (fn (x int) (- x n)) m) (let w (waste 9 (new Nil (int))) (match p ((Pair f y) (- (f y) w)))))"),
    "recursive function kept": nest(WASTE, "(let u (new Some (int) n) (rec f (-> int int) (fn (x int) (if (< x 1) (match u ((None) 1) ((Some y) y)) (- (f (- x 1)) x))) (let w (waste 9 (new Nil (int))) (- (f 2) w))))"),
    "functions on functions": nest(AGAIN, "(rec wrap (-> int (-> int int) (-> int int)) (fn (vi int vf (-> int int)) (if (< vi 1) vf (wrap (- vi 1) (fn (vx int) (- (vf vx) vi))))) ((wrap 6 (fn (x int) (- n x))) m))"),
    "bools kept": nest(WASTE, "(let p (new Pair (bool bool) (< n m) (== m k)) (let w (waste 9 (new Nil (int))) (match p ((Pair x y) (if x (if y n m) (if y k w))))))"),
    "bools made before": nest(WASTE, "(let x (< n m) (let w (waste 9 (new Nil (int))) (if x (- n w) (if (< m n) m k))))"),
    "bools given": nest(WASTE, "((fn (x bool y bool) (let w (waste 9 (new Nil (int))) (if x (if y n m) (if y k w)))) b (< n 5))"),
    "texts kept": nest(WASTE, """(let s "abc" (let t (concat s "defgh") (let w (waste 9 (new Nil (int))) (- (- (len t) (char 4 t)) (- (char 1 s) (- n w))))))"""),
    "texts made": """(rec f (-> int str str) (fn (x int s str) (if (< x 1) s (f (- x 1) (concat s "xyz")))) (let t (f 9 "a") (- (- (len t) (char 27 t)) (- (char 0 t) n))))""",
    "texts of lengths": """(- (- (len (concat "" "")) (len (concat "1234567" "8"))) (- (char 7 (concat "1234567" "8")) (- (char 8 (concat "12345678" "9")) n)))""",
    "text parts": """(let s "abcdefghij" (- (- (char 0 (sub 2 3 s)) (len (sub 2 3 s))) (- (len (sub 8 9 s)) (- (len (sub 20 1 s)) (- (char 9 (sub 0 10 s)) n)))))""",
    "text of numbers": """(let s (concat (show 123) (concat (from 65) (show 0))) (- (- (len s) (char 3 s)) (- (char 4 s) (- (char 5 s) n))))""",
    "text constants": """(rec f (-> int int) (fn (x int) (if (< x 1) n (- (f (- x 1)) (- (len "abc") (- (char 1 "xyz") (len (concat "q" "rs"))))))) (f 5))""",
    "texts in data": nest(WASTE, """(let p (new Pair (str (Opt str)) (concat "ab" "c") (new Some (str) "xyzt")) (let w (waste 9 (new Nil (int))) (match p ((Pair s o) (match o ((None) 1) ((Some t) (- (- (len s) (char 3 t)) (- n w))))))))"""),
    "data in data kept": nest(WASTE, "(let t (new Node () (new Node () (new Leaf () n) m (new Leaf () 5)) k (new Leaf () (- n m))) (rec f (-> Tree int) (fn (q Tree) (match q ((Leaf x) x) ((Node l y r) (- (f l) (- (* 2 y) (f r)))))) (let w (waste 9 (new Nil (int))) (- (f t) w))))"),
    "wide data kept": nest(WASTE, "(let o (new Some (int) n) (let d (new K4 () n m k 5) (let d2 (new K5 () n m k 6 7) (let w (waste 9 (new Nil (int))) (- (match d ((K0) 0) ((K1 a) 1) ((K2 a2 a3) 2) ((K3 a4 a5 a6) 3) ((K4 a7 a8 a9 a10) (- (- a7 (* a8 2)) (- a9 (* a10 3))))) (match d2 ((K6 u1 u2 u3 u4 u5 u6) 1) ((K5 a1 a2 a3 a4 a5) (- a1 (- a2 (- a3 (- a4 (- a5 w)))))))))))) "),
    "many captures kept": nest(WASTE, "(let p1 (new Some (int) n) (let u m (let p2 (new Some (int) k) (let v (- n k) (let f (fn (x int) (match p1 ((None) u) ((Some y) (match p2 ((None) v) ((Some z) (- x (- y (- z (- u v))))))))) (let w (waste 9 (new Nil (int))) (f w)))))))"),
    "twelve captures kept": nest(WASTE, twelve()),
    "nine fields kept": nest(WASTE, nine()),
    "garbage in arguments": nest(WASTE, "((fn (x (Opt int) y (Opt int) z int) (match x ((None) 1) ((Some u) (match y ((None) 2) ((Some v) (- u (- v z))))))) (new Some (int) n) (new Some (int) m) (waste 9 (new Nil (int))))"),
    "garbage in fields": nest(WASTE, "(match (new Node () (new Leaf () n) (waste 9 (new Nil (int))) (new Leaf () m)) ((Leaf x) x) ((Node l y r) (match l ((Node q1 q2 q3) 1) ((Leaf u) (match r ((Node q4 q5 q6) 2) ((Leaf v) (- u (- v y))))))))"),
    "garbage in operands": nest(WASTE, SUM, "(- (sum %s) (- (waste 9 (new Nil (int))) (sum %s)))" % (cons("n", "m"), cons("k", "n"))),
    "garbage before a failure": nest(WASTE, '(let w (waste 9 (new Nil (int))) (if b (trap "one" int) (- n w)))'),
    "deep frames": "(rec f (-> int int int) (fn (x int y int) (if (< x 1) (- y n) (let z (- y m) (- (f (- x 1) z) (- z x))))) (f 8 k))",
}
WHOLE = {
    "results kept": c30.TYPES + """(def n int 0) (def m int 0) (def b bool 0)
        (export waste (-> int (List int) int) %s) (export l (List int) %s) (export s str (concat "ab" "cd")) (export p (Couple bool (Opt str)) (new Pair (bool (Opt str)) b (new Some (str) s)))
        (export w int (waste 12 l)) (export f (-> int int) (fn (x int) (- x n))) (export q bool (< n m)) (export r (List int) (new Cons (int) w l)) (export v str "xyz") (export z int (waste 9 r))"""
        % (nest(WASTE, "waste"), cons("n", "m", "5")),
    "results after failure": c30.TYPES + """(def n int 0) (def b bool 0) (export l (List int) %s) (export f int (if b (trap "one" int) n)) (export g int (trap "two" int))""" % cons("n", "1"),
    "large results": c30.TYPES + """(def n int 0) (def m int 0) (def up (-> int (List int)) (rec up (-> int (List int)) (fn (ui int) (if (< ui 1) (new Nil (int)) (new Cons (int) (- n ui) (up (- ui 1))))) up))
        (export a (List int) (up 14)) (export d (List (List int)) (new Cons ((List int)) a (new Cons ((List int)) (up 3) (new Cons ((List int)) a (new Nil ((List int))))))) (export e int m)""",
    "texts": """(def n int 0) (export a str "") (export d str "1234567") (export e str "12345678") (export f str "123456789") (export g str (concat d e)) (export h str (concat a a)) (export i str (sub 1 3 g))
        (export j str (show 18446744073709551615)) (export k2 str (from 255)) (export l int n)""",
    "long texts": """(def n int 0) (export a str "%s") (export d str (concat a "%s")) (export e str (concat d d)) (export f int (- (len e) n))""" % ("abcdefghij" * 12, "0123456789" * 9),
    "functions as results": c30.TYPES + """(def n int 0) (export f (-> int int) (fn (x int) (- x n))) (export g (-> int int) (rec h (-> int int) (fn (y int) (if (< y 1) n (h (- y 1)))) h))
        (export a int (g 3)) (export fs (List (-> int int)) (new Cons ((-> int int)) f (new Cons ((-> int int)) g (new Nil ((-> int int)))))) (export d int (f a))""",
    "constructors of types": c30.TYPES + """(def n int 0) (def b bool 0) (export a (Opt int) (if b (new None (int)) (new Some (int) n))) (export d (List int) (new Nil (int))) (export e Small (new K0 ())) (export f Tree (new Leaf () n))
        (export g Small (if b (new K1 () n) (new K2 () 1 n))) (export h (Couple int int) (new Pair (int int) n 2))""",
}


def programs(deep):
    out = [(k, v) for k, v in sorted(WHOLE.items())]
    around = sorted(c30.AROUND.items(), key=lambda x: x[0] != "here")
    for i, (title, body) in enumerate(sorted(BODIES.items())):
        for j, (place, text) in enumerate(around):
            if j == 0 or deep or j == 1 + i % (len(around) - 1):
                out.append(("%s, %s" % (title, place), c30.body_text(text.replace("BODY", body)).replace("\n(def an", WIDE + "\n(def an", 1)))
    shared = c30.programs(deep)
    return out + [e for i, e in enumerate(shared) if deep or " in (" not in e[0] or i % 3 == 0]


class Evaluator(c30.Evaluator):
    machine = Vm

    def value(self, x):
        k, *rest = super().value(x)
        if k == "String":
            v = rest[0]
            while v[0] == "adt" and len(v[3]) == 1:
                v = v[3][0]
            if v[0] == "s":
                v = ("arr", tuple(("c", b) for b in v[1].encode("latin-1")))
            return (k, ("adt", c30.IR + "ByteString", 0, (v,)))
        return (k, *rest)


def evaluators(prog):
    fs = [f for f in c30.takers(prog) if c30.machine_code(prog, f) and not foreign(prog, f)]
    return sorted(fs, key=lambda f: f.id)


def foreign(prog, f):
    """does it reach code that is no part of the program"""
    return any('extern "' in prog.tstr(l) for g in prog.reachable([f.id]) if g in prog.fns for l in prog.fns[g].locals)


SHARED = None
SHOWN = re.compile(r"\((show|from|sub|char) ")


def one(e):
    title, text = e
    obs, n, done, left = [], 0, 0, 0
    for p in c30.variants(text):
        w = wrong(p)
        if w:
            raise Anchor("%s: %s" % (title, w))
        names = [("name", d[0]) for d in p["defs"] if d[1]]
        for ev in SHARED:
            try:
                k, bad = c30.judge(ev, p, names)
            except Untold as u:
                if not SHOWN.search(text):
                    raise Anchor("%s: %s" % (title, u))
                left += 1
                continue
            n += k
            done += bool(k)
            obs.append((ev.f.id, bad))
    return n, done, left, obs


def followed(e):
    try:
        return bounded(one)(e)
    except Anchor as a:
        raise a if str(a).startswith(e[0]) else Anchor("%s: %s" % (e[0], a))


def run(prog, rep):
    global SHARED
    SHARED = [Evaluator(prog, f) for f in evaluators(prog)]
    rep.floor("evaluators of code", len(SHARED), 1)
    es = programs(os.environ.get("VERIF_TIER") == "thorough")
    n = used = out = 0
    where = {ev.f.id: ev.f.loc() for ev in SHARED}
    with ProcessPoolExecutor(8, mp_context=get_context("fork"), initializer=lean) as pool:
        for e, (k, done, left, obs) in zip(es, pool.map(followed, es, chunksize=4)):
            n += k
            used += done > 0
            out += left
            for f in where:
                bad = [b for g, b in obs if g == f and b]
                rep.ob(not bad, "%s: %s" % (f, e[0]), bad[0] if bad else "", where[f])
    rep.floor("programs", used, 300)
    rep.floor("paths of evaluation", n, 800)
    rep.count("programs left out for texts of unknown length", out)
