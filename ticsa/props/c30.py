"""C30: evaluating a core program gives what it denotes."""
import os
import re
from concurrent.futures import ProcessPoolExecutor
from itertools import product
from multiprocessing import get_context
from ..mir import Anchor
from ..absint import State
from ..machine import Machine, bounded, lean
from ..core import Bridge, Reader, Run, Trap, Ask, Deep, wrong
from ..irval import IR
from . import c22

RULE = ("on known core programs with unknown numbers in them, each evaluator gives, on every path there is, one value for each expression "
        "it is given, in order: the value the expression denotes (call by value, static scope, first failure wins), or the failure it "
        "denotes with its message")
ASSUMPTIONS = ["what the operators and primitives give for their operands is C03"]

VALUE = "ticc_eval::Value"

# each an int, of n m k (unknown numbers), b c (both ways)
BODIES = """
number              n
capture             (((fn (x int) (fn (y int) (- x y))) n) m)
captures            ((((fn (x int) (fn (y int) (fn (z int) (- x (- y (* z k)))))) n) m) 5)
captures, other order (let u n (let v m (let w k ((fn (x int) (- w (- (* x u) v))) 3))))
captures some       (let u n (let v m (let w k (let f (fn (x int) (- x v)) (let g (fn (x2 int) (- w x2)) (- (f u) (g 4)))))))
captures twice      (let f (fn (x int) (- (* x n) (* n x))) (- (f m) (f k)))
captures of captures (let f (fn (x int) (fn (y int) (fn (z int) (- (* x 2) (- (* y 3) (+ z n)))))) (- (((f n) m) k) (((f k) n) m)))
captures argument and frame (let f (fn (x int y int) (let z (* x y) (fn (w int v int) (- z (- x (- y (- w v))))))) ((f n m) k 7))
capture of capture in let (let f (fn (x int) (let y (- x m) (fn (z int) (let w (- z y) (fn (v int) (- v (- w (* x y)))))))) (((f n) k) 9))
capture of function (let f (fn (x int) (- x n)) (let g (fn (y int) (f (* y 2))) (let h (fn (z int) (g (f z))) (h m))))
no arguments        ((fn () n))
no arguments, captures (let u (* n m) (let f (fn () (- u k)) (- (f) (f))))
two arguments       ((fn (x int y int) (- x y)) n m)
three arguments     ((fn (x int y int z int) (- x (- y (* z 2)))) n m k)
four arguments      ((fn (x int y int z int w int) (- (- x (* y 2)) (- (* z 3) w))) n m k 7)
five arguments      ((fn (x int y int z int w int v int) (- (- x (* y 2)) (- (* z 3) (- w (* v 5))))) n m k 7 8)
six arguments       ((fn (x int y int z int w int v int u int) (- (- x (* y 2)) (- (* z 3) (- w (* v (- u 5)))))) n m k 7 8 9)
arguments with frames ((fn (x int y int) (- x y)) (let z n (- z 1)) (let w m (- w 2)))
arguments with calls ((fn (x int y int z int) (- x (- y z))) ((fn (u int) (- u 1)) n) ((fn (v int t int) (- v t)) m k) (let w m (- w 2)))
four arguments with frames ((fn (x int y int z int w int) (- (- x y) (- z w))) (let a n (- a 1)) (let d m (- d 2)) (let e k (- e 3)) (let f n (- f 4)))
five arguments with frames ((fn (x int y int z int w int v int) (- (- x y) (- z (- v w)))) (let a n (- a 1)) (let d m (- d 2)) (let e k (- e 3)) (let f n (- f 4)) (let g m (- g 5)))
function with frame ((let f (fn (x int) (- x n)) (fn (y int) (f (f y)))) m)
function of if      ((if b (fn (x int) (- x n)) (fn (y int) (- n y))) m)
if                  (if b n m)
if in if            (if b (if c n m) (if c k 1))
if with frames      (let x (if b (let y n (- y 1)) (let z m (- z 2))) (- x k))
if in condition     (if (if b c b) n m)
if of comparison    (if (< n m) (- n m) (- m n))
if of comparisons   (if (< n m) (if (== m k) 1 n) (if (<= k n) 2 m))
let                 (let x (- n m) (- x k))
lets                (let x n (let y m (let z k (- x (- y (* z 2))))))
lets of lets        (let x (let y (let z n (- z 1)) (- y 2)) (- x 3))
let after let       (- (let x n (- x m)) (let y m (- y k)))
let in operands     (- (let x n (let y m (- x y))) (let z k (let w n (- z w))))
let in operand, right (let u n (- u (let x m (- x (let y k (- y u))))))
let in lambda       ((fn (x int) (let y (- x n) (let z (- y x) (- z (- y x))))) m)
let of lambda in frame (let x n (let f (fn (y int) (- x y)) (let z m (- (f z) (f x)))))
constructor 0       (match (new K0 ()) ((K1 a) 1) ((K0) n) ((K2 a2 a3) 2) ((K3 a4 a5 a6) 3) ((K4 a7 a8 a9 a10) 4))
constructor 1       (match (new K1 () n) ((K0) 0) ((K1 a) a) ((K2 a2 a3) 2) ((K3 a4 a5 a6) 3) ((K4 a7 a8 a9 a10) 4))
constructor 2       (match (new K2 () n m) ((K0) 0) ((K1 a) 1) ((K2 a2 a3) (- a2 (* a3 2))) ((K3 a4 a5 a6) 3) ((K4 a7 a8 a9 a10) 4))
constructor 3       (match (new K3 () n m k) ((K0) 0) ((K1 a) 1) ((K2 a2 a3) 2) ((K3 a4 a5 a6) (- a4 (- (* a5 2) a6))) ((K4 a7 a8 a9 a10) 4))
constructor 4       (match (new K4 () n m k 5) ((K0) 0) ((K1 a) 1) ((K2 a2 a3) 2) ((K3 a4 a5 a6) 3) ((K4 a7 a8 a9 a10) (- (- a7 (* a8 2)) (- a9 (* a10 3)))))
constructor 5       (match (new K5 () n m k 5 6) ((K6 u1 u2 u3 u4 u5 u6) 1) ((K5 a1 a2 a3 a4 a5) (- (- a1 (* a2 2)) (- (* a3 3) (- a4 (* a5 7))))))
constructor 6       (match (new K6 () n m k 5 6 7) ((K6 a1 a2 a3 a4 a5 a6) (- (- a1 (* a2 2)) (- (* a3 3) (- a4 (* a5 (- a6 9)))))) ((K5 u1 u2 u3 u4 u5) 2))
constructor 7       (match (new K7 () n m k 5 6 7 8) ((K7 a1 a2 a3 a4 a5 a6 a7) (- (- a1 (* a2 2)) (- (* a3 3) (- a4 (* a5 (- a6 (* a7 2))))))))
constructor 8       (match (new K8 () n m k 5 6 7 8 9) ((K8 a1 a2 a3 a4 a5 a6 a7 a8) (- (- a1 (* a2 2)) (- (* a3 3) (- a4 (* a5 (- a6 (* a7 (- a8 1)))))))))
constructor 9       (match (new K9 () n m k 5 6 7 8 9 1) ((K9 a1 a2 a3 a4 a5 a6 a7 a8 a9) (- (- a1 (* a2 2)) (- (* a3 3) (- a4 (* a5 (- a6 (* a7 (- a8 a9)))))))))
constructor with frames (match (new K2 () (let x n (- x 1)) (let y m (- y 2))) ((K0) 0) ((K1 a) 1) ((K2 a2 a3) (- a2 a3)) ((K3 a4 a5 a6) 3) ((K4 a7 a8 a9 a10) 4))
constructor of frames (let u k (match (new K5 () (let x n (- x 1)) (let y m (- y 2)) u (let z u (- z 3)) n) ((K6 u1 u2 u3 u4 u5 u6) 1) ((K5 a1 a2 a3 a4 a5) (- (- a1 a2) (- a3 (- a4 a5))))))
match in match      (match (new Some (int) n) ((None) 1) ((Some x) (match (new Some (int) m) ((None) 2) ((Some y) (- x y)))))
match of match      (match (match (if b (new Some (int) n) (new None (int))) ((None) (new K1 () m)) ((Some x) (new K2 () x k))) ((K0) 0) ((K1 a) (- a 1)) ((K2 a2 a3) (- a2 a3)) ((K3 a4 a5 a6) 3) ((K4 a7 a8 a9 a10) 4))
match, then frame   (let x (match (new K2 () n m) ((K0) 0) ((K1 a) 1) ((K2 a2 a3) (- a2 a3)) ((K3 a4 a5 a6) 3) ((K4 a7 a8 a9 a10) 4)) (let y k (- x y)))
match in operand    (let u n (- (match (new Pair (int int) m k) ((Pair p q) (- p q))) (let v u (- v 2))))
match captured      (match (new Pair (int int) n m) ((Pair p q) (let f (fn (x int) (- p (- x q))) (- (f k) (f q)))))
match captures      (let u k (match (new Pair (int int) n m) ((Pair p q) (match (new Some (int) u) ((None) 1) ((Some s) ((fn (x int) (- s (- u (- p (- q x))))) 4))))))
match of argument   ((fn (o (Opt int)) (match o ((None) n) ((Some x) (- x m)))) (if b (new Some (int) k) (new None (int))))
match of arguments  ((fn (o (Opt int) p (Opt int)) (match o ((Some x) (match p ((None) (- x 1)) ((Some y) (- x y)))) ((None) (match p ((Some z) (- z 2)) ((None) 3))))) (if b (new Some (int) n) (new None (int))) (if c (new Some (int) m) (new None (int))))
match of function   (match (new Some ((-> int int)) (fn (x int) (- x n))) ((None) 1) ((Some f) (- (f m) (f k))))
data of data        (match (new Some ((Couple int (Opt int))) (new Pair (int (Opt int)) n (new Some (int) m))) ((None) 0) ((Some p) (match p ((Pair x y) (match y ((None) x) ((Some z) (- x z)))))))
recursion           (rec f (-> (List int) int) (fn (l (List int)) (match l ((Nil) n) ((Cons h t) (- h (f t))))) (f (new Cons (int) m (new Cons (int) k (new Nil (int))))))
recursion, two      (rec f (-> (List int) int int) (fn (l (List int) a int) (match l ((Nil) a) ((Cons h t) (f t (- h (* a n)))))) (f (new Cons (int) m (new Cons (int) k (new Nil (int)))) 3))
recursion, captures (let u n (let v m (let w k (rec f (-> int int) (fn (x int) (if (< x 1) (- u (* w v)) (- (f (- x 1)) (* v w)))) (- (f 2) u)))))
recursion, captures some (let u n (let v m (let w k (let z (- w 1) (rec f (-> int int) (fn (x int) (if (< x 1) (- w u) (- (f (- x 1)) z))) (- (f 2) (f 1)))))))
recursion in lambda ((fn (u int) (rec f (-> int int) (fn (x int) (if (< x 1) (- u n) (- (f (- x 1)) 1))) (f 2))) m)
recursion of lambda (rec f (-> int (-> int int)) (fn (x int) (fn (y int) (if (< x 1) (- y n) ((f (- x 1)) (- y m))))) ((f 2) k))
recursion of lambda, captures (let u k (rec f (-> int (-> int int)) (fn (x int) (let z (* x u) (fn (y int) (if (< x 1) (- y z) ((f (- x 1)) (- z y)))))) ((f 2) n)))
recursion in recursion (rec f (-> int int) (fn (x int) (rec g (-> int int) (fn (y int) (if (< y 1) (- x n) (- (g (- y 1)) m))) (if (< x 1) (g 2) (- (f (- x 1)) (g 1))))) (f 2))
recursion and recursion (rec f (-> int int) (fn (x int) (if (< x 1) n (- (f (- x 1)) 1))) (rec g (-> int int) (fn (y int) (if (< y 1) m (- (f y) (g (- y 1))))) (- (g 2) (f 1))))
recursion, recursive captured (let u n (rec f (-> int int) (fn (x int) (if (< x 1) u (- (f (- x 1)) 1))) (let v (f 1) (rec g (-> int int) (fn (y int) (if (< y 1) v (- (f y) (- (g (- y 1)) u)))) (g 2)))))
recursion as value  (rec f (-> int int) (fn (x int) (if (< x 1) n (- (f (- x 1)) m))) (let g f ((fn (h (-> int int) i (-> int int)) (- (h 2) (i 1))) g f)))
recursion as data   (rec f (-> int int) (fn (x int) (if (< x 1) n (- (f (- x 1)) m))) (match (new Some ((-> int int)) f) ((None) 0) ((Some g) (- (g 2) (g 0)))))
recursion returned  ((rec f (-> int int) (fn (x int) (if (< x 1) n (- (f (- x 1)) m))) f) 2)
recursion returned, captures ((let u k (rec f (-> int int) (fn (x int) (if (< x 1) (- u n) (- (f (- x 1)) m))) (fn (z int) (- (f z) u)))) 2)
recursion, own value (rec f (-> int (-> int int)) (fn (x int) (if (< x 1) (fn (y int) (- y n)) (f (- x 1)))) ((f 2) m))
recursion not called (rec f (-> int int) (fn (x int) (f x)) n)
recursion after frame (- (let x n (rec f (-> int int) (fn (y int) (if (< y 1) x (- (f (- y 1)) m))) (f 2))) (let z k (- z 1)))
recursion, lambda inside (rec f (-> int int) (fn (x int) (let g (fn (y int) (if (< x 1) (- y n) (- (f (- x 1)) y))) (g m))) (f 2))
recursion, match inside (rec f (-> (List int) int int) (fn (l (List int) u int) (match l ((Nil) (- u n)) ((Cons h t) (let w (- h u) (- (f t w) (- w h)))))) (f (new Cons (int) m (new Cons (int) k (new Nil (int)))) 3))
recursion on a tree (rec f (-> Tree int) (fn (t Tree) (match t ((Leaf x) (- x n)) ((Node l y r) (- (f l) (- y (f r)))))) (f (new Node () (new Node () (new Leaf () m) k (new Leaf () 5)) n (new Leaf () 6))))
recursion, type     (rec f (all 'p (-> (List 'p) int)) (pi 'q (fn (l (List 'q)) (match l ((Nil) n) ((Cons h t) (- ((at f 'q) t) 1))))) (- ((at f int) (new Cons (int) m (new Nil (int)))) ((at f bool) (new Nil (bool)))))
recursion, types    (rec f (all 'p (all 'q (-> int 'p 'q int))) (pi 'r (pi 's (fn (x int y 'r z 's) (if (< x 1) n (- ((at (at f 'r) 's) (- x 1) y z) m))))) ((at (at f int) bool) 2 k b))
type                ((at (pi 'p (fn (x 'p) x)) int) n)
types               (let f (pi 'p (pi 'q (fn (x 'p y 'q) x))) (- ((at (at f int) bool) n b) ((at (at f int) int) m k)))
type under let      (let f (pi 'p (let u n (fn (x 'p) u))) (- ((at f int) m) ((at f bool) b)))
text length         (let s (concat "ab" "c") (- (len s) n))
text of text        (let s "abc" (let t (concat s "de") (- (len (concat t s)) n)))
text captured       (let s "abc" ((fn (x int) (- (len s) x)) n))
text as argument    ((fn (s str t str) (- (len s) (* (len t) n))) "abc" "xy")
trap                (trap "one" int)
trap in if          (if b n (trap "one" int))
trap in condition   (if (trap "one" bool) n m)
trap in conditions  (if (if b c (trap "one" bool)) (trap "two" int) m)
trap, left          (- (trap "one" int) n)
trap, right         (- n (trap "one" int))
trap, both          (- (trap "one" int) (trap "two" int))
trap in let         (let x (trap "one" int) n)
trap in let, body   (let x n (trap "one" int))
trap in let, both   (let x (trap "one" int) (trap "two" int))
trap in lambda      (let f (fn (x int) (trap "one" int)) n)
trap in lambda called (let f (fn (x int) (if b x (trap "one" int))) (f n))
trap in argument    ((fn (x int) n) (trap "one" int))
trap in arguments   ((fn (x int y int) n) (trap "one" int) (trap "two" int))
trap in argument 2  ((fn (x int y int) n) m (trap "two" int))
trap in argument 3  ((fn (x int y int z int) n) m 2 (trap "two" int))
trap in three arguments ((fn (x int y int z int) n) (if b m (trap "one" int)) (if c m (trap "two" int)) (trap "three" int))
trap in four arguments ((fn (x int y int z int w int) n) (if b m (trap "one" int)) (if c m (trap "two" int)) (trap "three" int) (trap "four" int))
trap in function    ((if b (fn (x int) x) (trap "one" (-> int int))) n)
trap in field       (match (new Some (int) (trap "one" int)) ((None) 1) ((Some x) 2))
trap in fields      (match (new Pair (int int) (if b n (trap "one" int)) (if c m (trap "two" int))) ((Pair x y) (- x y)))
trap in three fields (match (new K3 () (if b n (trap "one" int)) (if c m (trap "two" int)) (trap "three" int)) ((K0) 0) ((K1 a) 1) ((K2 a2 a3) 2) ((K3 a4 a5 a6) 3) ((K4 a7 a8 a9 a10) 4))
trap in four fields (match (new K4 () (if b n (trap "one" int)) (if c m (trap "two" int)) (trap "three" int) (trap "four" int)) ((K0) 0) ((K1 a) 1) ((K2 a2 a3) 2) ((K3 a4 a5 a6) 3) ((K4 a7 a8 a9 a10) 4))
trap in five fields (match (new K5 () n (if b n (trap "one" int)) (if c m (trap "two" int)) (trap "three" int) (trap "four" int)) ((K6 u1 u2 u3 u4 u5 u6) 1) ((K5 a1 a2 a3 a4 a5) a1))
trap in match       (match (trap "one" (Opt int)) ((None) n) ((Some x) x))
trap in branch      (match (if b (new Some (int) n) (new None (int))) ((None) (trap "one" int)) ((Some x) x))
trap in recursion   (rec f (-> int int) (fn (x int) (if (< x 1) (trap "one" int) (- (f (- x 1)) 1))) (if b (f 2) n))
trap after recursion (rec f (-> int int) (fn (x int) (f x)) (trap "one" int))
trap in type        (let f (pi 'p (fn (x 'p) (trap "one" int))) (if b n ((at f int) m)))
trap in text        (len (concat (if b "x" (trap "one" str)) (if c "y" (trap "two" str))))
trap, then frame    (let x (if b n (trap "one" int)) (let y m (- x y)))
"""
TYPES = """(type (Opt 'o) (None) (Some 'o)) (type (List 'l) (Nil) (Cons 'l (List 'l))) (type (Couple 'ca 'cb) (Pair 'ca 'cb))
(type Tree (Leaf int) (Node Tree int Tree)) (type Small (K0) (K1 int) (K2 int int) (K3 int int int) (K4 int int int int))
(type Mid (K5 int int int int int) (K6 int int int int int int)) (type Seven (K7 int int int int int int int))
(type Eight (K8 int int int int int int int int)) (type Nine (K9 int int int int int int int int int))
"""

# where a body may stand
AROUND = {
    "here": "BODY",
    "after frames": "(let fa m (let fb (- n 1) (- BODY (- fa fb))))",
    "in an argument": "((fn (fa int fb int) (- fa fb)) (let fc m (- fc 1)) BODY)",
    "in a lambda": "(let fa (- n k) ((fn (fb int) (- (- BODY fb) fa)) m))",
    "in a recursive function": "(let fa (- n k) (rec fr (-> int int) (fn (fb int) (if (< fb 1) (- BODY fa) (- (fr (- fb 1)) fb))) (fr 1)))",
    "in a branch": "(match (new Couple2 (int int) m k) ((Couple2 fa fb) (- BODY (- fa fb))))",
    "as a field": "(match (new Couple2 (int int) BODY k) ((Couple2 fa fb) (- fa fb)))",
}
AROUND = {k: v.replace("Couple2", "Pair") for k, v in AROUND.items()}

WHOLE = {
    "definitions": "(def n int 0) (def m int 0) (export a int (- n m)) (def b2 int (- a 1)) (export d int (- b2 m)) (export e int (- a d))",
    "definitions of functions": """(def n int 0) (def m int 0) (def f (-> int int) (fn (x int) (- x n))) (def g (-> int int) (fn (y int) (f (f y))))
        (export a int (g m)) (export h (-> int int) g) (export d int (- (h 1) a))""",
    "definitions that fail": "(def n int 0) (export a int n) (export d int (trap \"one\" int)) (export e int (trap \"two\" int))",
    "function definition not called": "(def n int 0) (def f (-> int int) (fn (x int) (trap \"one\" int))) (export a int n)",
    "definition of recursion": """(def n int 0) (def f (-> int int) (rec g (-> int int) (fn (x int) (if (< x 1) n (- (g (- x 1)) 1))) (fn (y int) (g (- y 1)))))
        (export a int (f 3)) (export d int (- (f 2) a))""",
    "values": TYPES + """(def n int 0) (def m int 0) (def b bool 0) (export v1 bool b) (export v2 (Opt int) (new Some (int) n)) (export v3 (Opt int) (new None (int)))
        (export v4 (Couple int bool) (new Pair (int bool) m b)) (export v5 str "abc") (export v6 (-> int int) (fn (x int) x)) (export v7 Small (new K0 ()))
        (export v8 Small (new K3 () n m 5)) (export v9 bool (< n m)) (export v10 (List (-> int int)) (new Cons ((-> int int)) v6 (new Nil ((-> int int)))))
        (export v11 (all 'v (-> 'v 'v)) (pi 'w (fn (z 'w) z)))""",
    "polymorphic definitions": TYPES + """(def n int 0) (def m int 0) (def b bool 0)
        (export map (all 'a (all 'd (-> (-> 'a 'd) (-> (List 'a) (List 'd))))) (pi 'e (pi 'f (fn (f (-> 'e 'f)) (rec go (-> (List 'e) (List 'f)) (fn (l (List 'e))
        (match l ((Nil) (new Nil ('f))) ((Cons u v) (new Cons ('f) (f u) (go v))))) go)))))
        (export r (List int) (((at (at map int) int) (fn (x int) (- x m))) (new Cons (int) n (new Cons (int) m (new Nil (int))))))
        (export s (List bool) (((at (at map int) bool) (fn (y int) (if b (< y n) (== y m)))) (new Cons (int) n (new Nil (int)))))
        (export t (List int) (((at (at map bool) int) (fn (z bool) (if z n m))) (new Cons (bool) b (new Nil (bool)))))""",
    "folds": TYPES + """(def n int 0) (def m int 0) (def k int 0)
        (export foldl (all 'a (all 'd (-> (-> 'd 'a 'd) (-> 'd (-> (List 'a) 'd))))) (pi 'e (pi 'f (fn (f (-> 'f 'e 'f)) (fn (z 'f) (fn (xs (List 'e))
        (rec go (-> (List 'e) 'f 'f) (fn (l (List 'e) acc 'f) (match l ((Nil) acc) ((Cons u v) (go v (f acc u))))) (go xs z))))))))
        (def xs2 (List int) (new Cons (int) n (new Cons (int) m (new Cons (int) k (new Nil (int))))))
        (export r int ((((at (at foldl int) int) (fn (x int y int) (- x y))) 9) xs2))
        (export s (List int) ((((at (at foldl int) (List int)) (fn (p (List int) q int) (new Cons (int) q p))) (new Nil (int))) xs2))""",
    "mutual": """(def n int 0) (def m int 0)
        (export a int (rec even (-> int bool) (fn (x int) (rec odd (-> int bool) (fn (y int) (if (< y 1) false (even (- y 1)))) (if (< x 1) true (odd (- x 1)))))
        (if (even 4) n (if (even 3) 1 m)))) (export d int (rec f (-> int int) (fn (z int) (if (< z 1) n (rec g (-> int int) (fn (w int) (if (< w 1) (f (- z 1)) (- (g (- w 1)) m))) (g 1)))) (f 2)))""",
}
# what the programs of the optimizer are given
GIVEN = """
(def an int 0) (def am int 0) (def ak int 0) (def b bool 0) (def c bool 0)
(export r int (f an b (if c (new Some (int) am) (new None (int))) (if b (if c (new A ()) (new B () ak)) (new C () ak am)) (fn (gx int) (- (* gx 3) ak))
  (fn (hx int) (fn (hy int) (- (* hx 2) (- hy am)))) am))
"""


def body_text(body):
    return TYPES + """(def an int 0) (def am int 0) (def ak int 0) (def b bool 0) (def c bool 0)
(export r int ((fn (n int m int k int) %s) an am ak))""" % body


def programs(deep):
    """(title, text)"""
    out = [(k, v) for k, v in sorted(WHOLE.items())]
    around = sorted(AROUND.items(), key=lambda x: x[0] != "here")
    for i, line in enumerate(BODIES.strip().split("\n")):
        title, body = re.match(r"(.*?)\s+(\(.*|n)$", line).groups()
        for j, (place, text) in enumerate(around):
            if j == 0 or deep or (i + j) % 3 == 0:
                out.append(("%s, %s" % (title, place), body_text(text.replace("BODY", body))))
    for e in c22.selected(deep):
        if len(e) == 4:
            out.append(("%s in %s" % (e[0].split(" in (")[0], e[3]), c22.text_of(e) + GIVEN))
    return out


SYM = {"n", "m", "k", "an", "am", "ak"}


def variants(text):
    """programs of a text: every way its bools may be, its numbers unknown"""
    p = Reader(text).program()
    used = [n for n, x, t, e in p["defs"] if p["names"][n] in ("b", "c") and t == "bool" and occurs(n, p)]
    for vals in product((0, 1), repeat=len(used)):
        v = dict(zip(used, vals))
        defs = []
        for n, x, t, e in p["defs"]:
            if t == "int" and e[0] == "int" and p["names"][n] in SYM:
                e = ("int", ("sym", p["names"][n]))
            elif t == "bool" and p["names"][n] in ("b", "c"):
                e = ("bool", v.get(n, 0))
            defs.append((n, x, t, e))
        yield {**p, "defs": tuple(defs)}


def occurs(n, p):
    def has(e):
        return isinstance(e, tuple) and (e == ("name", n) or any(has(x) for x in e))
    return any(has(d[3]) for d in p["defs"])


# ---- what the evaluators give
class Unknown(Exception):
    pass


class Evaluator:
    machine = Machine

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.table = {}
        self.vn = [x["n"] for x in prog.adts[VALUE]["variants"]]

    def run(self, p, exprs):
        """[(facts, values or ("trap", message))], or None where it panics"""
        it = self.machine(self.prog)
        br = Lit(self.prog, it.box)
        st = State()
        root, xs = ("mem", ("sym", "program")), ("mem", ("sym", "exprs"))
        st.env[root] = br.program(st, p)
        st.env[xs] = ("arr", tuple(br.expr(st, e) for e in exprs))
        outs = it.start(self.f, [("ptr", root, ()), ("ptr", xs, ())], st)
        if it.loops:
            raise Anchor("%s goes round without end in this analysis" % self.f.id)
        res = []
        for s, v in outs:
            v = it.deep(s, v)
            if v[0] != "adt" or v[1] != "core::result::Result":
                raise Anchor("%s: result %s" % (self.f.id, str(v)[:80]))
            res.append((dict(s.facts), tuple(self.value(x) for x in br.seq(v[3][0])) if v[2] == 0 else ("trap", br.text(v[3][0]))))
        return res, bool(it.diverged)

    def value(self, x):
        if x[0] != "adt" or x[1] != VALUE:
            raise Unknown(str(x)[:80])
        k = self.vn[x[2]]
        if k == "String":
            return (k, x[3][0])
        if k in ("Int", "Bool"):
            v = x[3][0]
            while v[0] == "adt" and len(v[3]) == 1:
                v = v[3][0]
            return (k, v)
        if k == "Composite":
            parts = []

            def walk(y):
                if y[0] == "adt" and y[1] == IR + "Name":
                    parts.append(y[3][0][1])
                elif y[0] == "arr" or y == ("vecnew",):
                    parts.append(tuple(self.value(z) for z in (y[1] if y[0] == "arr" else ())))
                elif y[0] == "adt":
                    for z in y[3]:
                        walk(z)
                else:
                    raise Unknown(str(y)[:80])
            walk(x[3][0])
            tags, vals = [a for a in parts if isinstance(a, int)], [a for a in parts if isinstance(a, tuple)]
            if len(tags) != 1 or len(vals) != 1:
                raise Unknown(str(parts)[:80])
            return (k, tags[0], vals[0])
        return (k,)

    def primitive(self, e):
        """what it gives for an operator or primitive of literals"""
        if e not in self.table:
            outs, stop = self.run({"names": ("x",), "next": 0, "types": (), "defs": ()}, [e])
            if stop:
                raise Unknown("a primitive that may panic")
            self.table[e] = [(f, v) for f, v in outs]
        return self.table[e]


class Lit(Bridge):
    """literals may have unknown payload"""

    def expr(self, st, e):
        if e[0] in ("int", "bool", "str") and isinstance(e[1], tuple):
            v = self.v
            return v.expr({"int": "Int", "bool": "Bool", "str": "String"}[e[0]], e[1])
        return super().expr(st, e)

    def text(self, x):
        while x[0] == "adt" and len(x[3]) == 1:
            x = x[3][0]
        return super().text(x)


# ---- what a program denotes
class Denotes(Run):
    def __init__(self, decided, ev):
        super().__init__(decided)
        self.ev = ev

    def leaf(self, e):
        outs = self.ev.primitive(e)
        if len(outs) == 1:
            f, v = outs[0]
        else:
            i = self.decide(("leaf", e), tuple(range(len(outs))))
            f, v = outs[i]
        if v[0] == "trap":
            raise Trap(v[1])
        k, x = v[0]
        x = x[1] if x[0] == "c" else x
        return {"Int": "int", "Bool": "bool", "String": "str"}[k], x

    def op(self, o, a, b):
        return self.leaf(("op", a, o, b))

    def run(self, e, env):
        if e[0] == "str" and not isinstance(e[1], tuple):
            return self.leaf(e)
        if e[0] == "intr":
            return self.leaf(("intr", e[1], tuple(self.run(x, env) for x in e[2])))
        return super().run(e, env)

    def truth(self, v):
        if v[0] != "bool":
            raise Anchor("no bool: " + str(v)[:60])
        return bool(self.decide(v[1], (1, 0))) if isinstance(v[1], tuple) else bool(v[1])

    def apply(self, f, args):
        if f[0] != "clo":
            raise Anchor("no function: " + str(f)[:60])
        return super().apply(f, args)


def shape(v):
    if v[0] in ("int", "bool", "str"):
        k = {"int": "Int", "bool": "Bool", "str": "String"}[v[0]]
        return (k, v[1] if isinstance(v[1], tuple) else ("c", v[1]))
    if v[0] == "con":
        return ("Composite", v[1], tuple(shape(x) for x in v[2]))
    return ("Fn",)


def denoted(ev, p, exprs):
    """[(decisions, values or ("trap", message))], or None where it may not end"""
    work, out = [{}], []
    while work:
        dec = work.pop()
        if len(out) + len(work) > 200:
            raise Anchor("too many paths")
        r = Denotes(dec, ev)
        try:
            env = {}
            for n, x, t, e in p["defs"]:
                env[n] = r.run(e, env)
            out.append((dec, tuple(shape(r.run(e, env)) for e in exprs)))
        except Trap as t:
            out.append((dec, ("trap", str(t))))
        except Ask as q:
            for w in q.ways:
                work.append({**dec, q.term: w})
        except Deep:
            return None
    return out


def consistent(dec, facts, ev):
    for t, w in dec.items():
        if t[0] == "leaf":
            f = ev.primitive(t[1])[w][0]
            if any(facts.get(a, b) != b for a, b in f.items()):
                return False
        elif t in facts and facts[t] != w:
            return False
    return True


def judge(ev, p, exprs):
    """(paths, what is wrong)"""
    want = denoted(ev, p, exprs)
    if want is None:
        return 0, None
    got, stop = ev.run(p, exprs)
    if stop:
        return len(got), "panics"
    if not got:
        raise Anchor("%s: no outcome" % ev.f.id)
    for facts, v in got:
        for dec, w in want:
            if consistent(dec, facts, ev) and v != w:
                return len(got), "gives %s where it is %s" % (words(v, p), words(w, p))
    return len(got), None


def words(v, p):
    if v and v[0] == "trap":
        return "failure '%s'" % v[1]
    if v and isinstance(v[0], tuple):
        return "; ".join(words(x, p) for x in v)
    if v[0] == "Composite":
        return "%s(%s)" % (p["names"][v[1]], ", ".join(words(x, p) for x in v[2]))
    return brief(v[1]) if len(v) > 1 else "a function"


def brief(t):
    if not isinstance(t, tuple):
        return str(t)
    if len(t) == 2 and t[0] in ("c", "s", "sym"):
        return str(t[1])
    return "(%s)" % " ".join(brief(x) for x in t)


SHARED = None


def takers(prog):
    return [f for f in prog.fns.values() if f.crate == "ticc_eval" and f.kind == "fn" and f.nargs == 2 and not f.derived and
          prog.tstr(f.locals[1]).startswith("&" + IR + "Program") and prog.tstr(f.locals[2]).startswith("&[" + IR + "Expr") and
          VALUE in prog.tstr(f.locals[0])]


def evaluators(prog):
    return sorted((f for f in takers(prog) if not machine_code(prog, f)), key=lambda f: f.id)


def machine_code(prog, f):
    """is it one that makes code of the program first: that is another representation, of which this rule says nothing"""
    for g in prog.reachable([f.id]):
        r = prog.fns[g].locals[0] if g in prog.fns else None
        m = r is not None and re.search(r"Vec<(ticc_eval::[\w:]+)", prog.tstr(r))
        if m and m.group(1) != VALUE and prog.adts[m.group(1)]["kind"] == "enum":
            return True
    return False


def one(e):
    evs = SHARED
    title, text = e
    obs, n, done = [], 0, 0
    for p in variants(text):
        w = wrong(p)
        if w:
            raise Anchor("%s: %s" % (title, w))
        names = [("name", d[0]) for d in p["defs"] if d[1]]
        for ev in evs:
            k, bad = judge(ev, p, names)
            n += k
            done += bool(k)
            obs.append((ev.f.id, bad))
    return n, done, obs


def followed(e):
    try:
        return bounded(one)(e)
    except Anchor as a:
        raise a if str(a).startswith(e[0]) else Anchor("%s: %s" % (e[0], a))


def run(prog, rep):
    global SHARED
    evs = [Evaluator(prog, f) for f in evaluators(prog)]
    rep.floor("evaluators of core programs", len(evs), 2)
    SHARED = evs
    es = programs(os.environ.get("VERIF_TIER") == "thorough")
    n = used = 0
    where = {ev.f.id: ev.f.loc() for ev in evs}
    with ProcessPoolExecutor(8, mp_context=get_context("fork"), initializer=lean) as pool:
        for e, (k, done, obs) in zip(es, pool.map(followed, es, chunksize=4)):
            n += k
            used += done > 0
            for f in where:
                bad = [b for g, b in obs if g == f and b]
                rep.ob(not bad, "%s: %s" % (f, e[0]), bad[0] if bad else "", where[f])
    rep.floor("programs", used, 300)
    rep.floor("paths of evaluation", n, 1000)
