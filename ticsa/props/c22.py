"""C22: optimising a program does not change what it computes."""
import os
import re
from concurrent.futures import ProcessPoolExecutor
from multiprocessing import get_context
from ..mir import Anchor
from ..absint import State
from ..heap import Heap
from ..machine import bounded, lean
from ..core import Bridge, Reader, wrong, differ, show
from ..irval import IR

RULE = ("on known core programs, each pass over a program and the optimizer as a whole give, on the one path there is, a program in "
        "which every name is bound once and in scope, that is well typed, and that computes for each export, for every value of the "
        "unknown in it, what it computed before, and does nothing that may fail and was not done before")
ASSUMPTIONS = ["different programs have different hashes"]


class Pass(Heap):
    """one pass over a program; the programs it is asked to look at on the way are kept"""

    def __init__(self, prog):
        super().__init__(prog)
        self.seen = []

    def model(self, name, callee, args, st, t, fn):
        if callee == "look":
            self.seen.append(self.deep(st, args[0]))
            return [(st, ("tup", ()))]
        if t is not None and name == "hash" and len(args) == 2:
            v = self.deep(st, args[0])
            root, path = self.target(st, args[1])
            self.store(st, root, path, ("hash", self.load(st, root, path), v))
            return [(st, ("tup", ()))]
        if t is not None and name == "finish" and len(args) == 1:
            return [(st, ("hashed", self.deep(st, args[0])))]
        return super().model(name, callee, args, st, t, fn)

    def fold(self, t, st):
        if t[2][0] == t[3][0] == "hashed" and t[1] in ("Eq", "Ne"):
            return ("c", int((t[2] == t[3]) == (t[1] == "Eq")))
        return super().fold(t, st)


def outcome(prog, f, p, args):
    """(program after f, programs on the way, what went wrong)"""
    it = Pass(prog)
    br = Bridge(prog, it.box)
    st = State()
    root = ("mem", ("sym", "program"))
    st.env[root] = br.program(st, p)
    ptr = ("ptr", root, ())
    outs = it.start(f, [ptr if a == "program" else a for a in args], st)
    if it.loops:
        raise Anchor("%s goes round without end in this analysis" % f.id)
    if not outs and it.diverged:
        return None, [], "panics"
    if it.diverged:
        raise Anchor("%s: may panic" % f.id)
    ends = []
    for s, _ in outs:
        end = br.un_program(it.deep(s, ptr))
        if end not in ends:
            ends.append(end)
    if len(ends) != 1:
        raise Anchor("%s: %d outcomes" % (f.id, len(ends)))
    return ends[0], [br.un_program(x) for x in it.seen], None


def passes(prog):
    own = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and not f.derived]
    of = lambda f, i: prog.tstr(f.locals[i])
    one = [f for f in own if f.nargs == 1 and of(f, 0) == "()" and of(f, 1).startswith("&mut " + IR + "Program")]
    opts = [d for d, a in prog.adts.items() if d.startswith("ticc::") and a["kind"] == "struct" and
            {"optimize", "verify"} <= {x["n"] for x in a["variants"][0]["f"]}]
    if len(opts) != 1:
        raise Anchor("options of the compiler")
    whole = [f for f in own if f.nargs == 3 and any(prog.adt_of(x) == opts[0] for x in f.locals[1:4]) and
             any(prog.tstr(x).startswith("&mut " + IR + "Program") for x in f.locals[1:4])]
    if len(whole) != 1:
        raise Anchor("optimizer: %d" % len(whole))
    args = []
    for x in whole[0].locals[1:4]:
        if prog.adt_of(x) == opts[0]:
            args.append(("adt", opts[0], 0, tuple(("c", 1) for _ in prog.adts[opts[0]]["variants"][0]["f"])))
        elif "Program" in prog.tstr(x) and "Fn" not in prog.tstr(x):
            args.append("program")
        else:
            args.append(("fn", "look"))
    return sorted(one, key=lambda f: f.id), whole[0], args


TYPES = """(type (Opt 'o) (None) (Some 'o)) (type (List 'l) (Nil) (Cons 'l (List 'l))) (type Tri (A) (B int) (C int int))
(type (Fun 'm 'n) (Fun0 (-> 'm 'n)) (Fun1 'm)) (type One (Only int))"""
HELP = """
(def one int 1)
(def val int (* one 7))
(def unusedone int (+ val 1))
(def unusedtwo int (+ unusedone 1))
(def id (all 'i (-> 'i 'i)) (pi 'j (fn (idx 'j) idx)))
(def add (-> int (-> int int)) (fn (adda int) (fn (addb int) (+ adda addb))))
(def less (-> int (-> int int)) (fn (lessa int) (fn (lessb int) (- lessa lessb))))
(def konst (all 'p (all 'q (-> 'p (-> 'q 'p)))) (pi 'r (pi 's (fn (kona 'r) (fn (konb 's) kona)))))
(def both (-> int int int) (fn (botha int bothb int) (- botha (* bothb bothb))))
(def three (-> int (-> int int (-> int int))) (fn (tha int) (fn (thb int thc int) (fn (thd int) (- (- tha (* thb 2)) (- (* thc 3) thd))))))
(def twice (-> (-> int int) (-> int int)) (fn (twf (-> int int)) (fn (twx int) (twf (twf twx)))))
(def some (all 'u (-> 'u (Opt 'u))) (pi 'v (fn (somex 'v) (new Some ('v) somex))))
(def none (all 'w (Opt 'w)) (pi 'x (new None ('x))))
(def alias (-> int (-> int int)) add)
(def later (-> int (-> int int)) (fn (lat int) (let latw (* lat lat) (fn (lau int) (+ latw lau)))))
(def big (-> int (-> int int)) (fn (bga int) (fn (bgb int) (+ (+ (+ (+ bga bgb) (* bga 3)) (+ (- bgb bga) (* bgb 5))) (+ (+ (* bga bgb) (+ bga 7)) (+ (* bgb 11) (- bga 13)))))))
(def fail (all 'fa (-> 'fa 'fa)) (pi 'fb (fn (failx 'fb) (trap "fail" 'fb))))
(def orelse (all 'y (-> (Opt 'y) (-> 'y 'y))) (pi 'z (fn (oeo (Opt 'z)) (fn (oed 'z) (match oeo ((None) oed) ((Some oes) oes))))))
(def count (-> int (-> int int)) (fn (cnn int) (rec cng (-> int int) (fn (cnm int) (if (< cnm 1) cnn (cng (- cnm 1)))) (fn (cnk int) (cng cnk)))))
"""
ENV = "n int b bool o (Opt int) t Tri g (-> int int) h (-> int (-> int int)) m int"
KINDS = "(-> int bool (Opt int) Tri (-> int int) (-> int (-> int int)) int int)"

# each an int, made of what the passes rewrite or must leave alone
REDEXES = """
call                ((fn (ra int) (+ ra n)) 5)
call2               ((fn (ra int rb int) (- ra rb)) n (g 1))
call, twice used    ((fn (ra int) (+ ra ra)) (g n))
call, not used      ((fn (ra int) 7) (/ n m))
call of an if, let  ((if b (fn (ra int) (+ ra 1)) (fn (rb int) (- rb 1))) (let rc (g n) (* rc rc)))
call in parts       (((fn (ra int) (fn (rb int) (- ra rb))) n) m)
call under let      ((let ra (g n) (fn (rb int) (- ra rb))) (g m))
call under lets     ((let ra (g n) (let rb (+ ra 1) (fn (rc int rd int) (- (+ ra rc) (* rb rd))))) n m)
call of an if       ((if b (fn (ra int) (+ ra 1)) (fn (rb int) (- rb 1))) n)
call of a match     ((match o ((None) (fn (ra int) ra)) ((Some rb) (fn (rc int) (- rc rb)))) m)
call in a call      (+ ((fn (ra int) (* ra 3)) ((fn (rb int) (- rb 1)) n)) 2)
call of no lambda   ((h n) (twice2 g m))
type                ((at (pi 'ra (fn (rx 'ra) rx)) int) n)
type under let      ((at (let rw (g n) (pi 'ra (fn (rx 'ra ry int) (let rz rx (+ rw ry))))) bool) b n)
types               ((at (at (pi 'ra (pi 'rb (fn (rx 'ra ry 'rb) rx))) int) bool) n b)
types of all kinds  (match ((at (pi 'ra (fn (rx 'ra) (let rf (fn (ry (Opt 'ra) rz (-> 'ra (Fun 'ra int))) (new Some ((Opt 'ra)) ry)) (rec rg (-> 'ra (Opt (Opt 'ra))) (fn (rh 'ra) (rf ((at some 'ra) rh) (fn (ri 'ra) (new Fun1 ('ra int) ri)))) (if b (rg rx) (trap "no" (Opt (Opt 'ra)))))))) int) n) ((None) 0) ((Some rj) (match rj ((None) 1) ((Some rk) rk))))
type in type        ((at (pi 'ra (fn (rx 'ra) ((at (pi 'rb (fn (ry 'rb) ry)) 'ra) rx))) int) m)
inner type          (let rp (pi 'ra (fn (rx 'ra) ((at id 'ra) rx))) (+ ((at rp int) n) (if ((at rp bool) b) 1 2)))
let once            (let rx (g n) (+ rx 1))
let twice           (let rx (g n) (+ rx rx))
let never           (let rx (/ n m) 5)
let never deep      (let rx (g n) (let ry (+ rx 1) (let rz (* ry 2) m)))
let chain           (let rx n (let ry rx (let rz ry (+ rz (* ry rx)))))
let of name         (let rx n (- (* rx rx) rx))
let of const        (let rx 3 (+ rx (* rx n)))
let of bool         (let rx true (if rx (if rx n 1) 2))
let of text         (let rx "ab" (len (concat rx (concat "c" rx))))
let of ctor         (let rx (new None (int)) (match rx ((None) (match rx ((None) n) ((Some ry) 1))) ((Some rz) rz)))
let in lambda       (let rx (g n) (twice2 (fn (ry int) (+ rx ry)) m))
let in condition    (let rx (/ n m) (if b rx 0))
let in condition 2  (let rx (/ n m) (if (< rx 3) n m))
let in branch       (let rx (g n) (match o ((None) 0) ((Some ry) (- rx ry))))
let in both         (let rx (g n) (match o ((None) rx) ((Some ry) (- rx ry))))
let in let          (let rx (let ry (g n) (+ ry 1)) (* rx 2))
let in rec          (let rx (g n) (rec rf (-> int int) (fn (ry int) (if (< ry 1) rx (rf (- ry 1)))) (rf 2)))
let of lambda       (let rf (fn (rx int) (+ rx n)) (+ (rf 1) (rf 2)))
let of lambda once  (let rf (fn (rx int) (+ rx (g rx))) (rf (g m)))
let of lambda under let (let rf (let rw (g n) (fn (rx int) (- rx rw))) (twice2 (fn (ry int) (rf ry)) m))
let of lambda in lambda (let rf (fn (rx int) (+ (g rx) rx)) (twice2 (fn (ry int) (rf (- ry 1))) n))
let of lambda in rec (let rf (fn (rx int) (* (g rx) rx)) (rec rg (-> int int) (fn (ry int) (if (< ry 1) 0 (rf (rg (- ry 1))))) (rg 2)))
let of lambda escapes (let rf (fn (rx int) (- rx n)) (+ (rf 4) (twice2 rf m)))
let of lambdas      (let rf (fn (rx int) (fn (ry int) (- rx ry))) (+ ((rf n) m) (twice2 (rf 9) n)))
let of lambda, twice used (let rf (fn (rx int) (+ rx rx)) (- (rf (g n)) (rf (g m))))
let of lambda, not used (let rf (fn (rx int) 4) (+ (rf (/ n m)) (rf 2)))
let of lambda, used in lambda (let rf (fn (rx int) (fn (ry int) (+ rx ry))) (+ (twice2 (rf (g n)) m) ((rf 1) 2)))
let of lambda, used in if (let rf (fn (rx int) (if b (- rx 1) (* rx 2))) (- (rf (g n)) (rf m)))
let of poly         (let rf (pi 'ra (fn (rx 'ra) rx)) (if ((at rf bool) b) ((at rf int) n) m))
let of poly once    (let rf (pi 'ra (fn (rx 'ra) (new Some ('ra) rx))) (match ((at rf int) n) ((None) 0) ((Some ry) ry)))
let of poly lambdas (let rf (pi 'ra (pi 'rb (fn (rx 'ra) (fn (ry 'rb) rx)))) (+ (((at (at rf int) bool) n) b) (((at (at rf int) int) m) n)))
lambdas of lambdas  (let rf (fn (rx int) (+ rx 1)) (let rg (fn (ry int) (rf (* ry 2))) (let rh (fn (rz int) (rg (rf rz))) (+ (rh n) (rh m)))))
shared names        (let rf (fn (rx int) (let ry (* rx 3) (- ry n))) (+ (rf (rf n)) (rf m)))
inlined match       (let rf (fn (rx (Opt int)) (match rx ((None) n) ((Some ry) (+ ry 1)))) (- (rf o) (rf (new Some (int) m))))
inlined rec         (let rf (fn (rx int) (rec rg (-> int int) (fn (ry int) (if (< ry 1) 7 (rg (- ry 1)))) (rg rx))) (+ (rf 1) (rf 2)))
inlined trap        (let rf (fn (rx bool) (if rx 3 (trap "no" int))) (+ (rf true) (rf b)))
helpers             (- ((at id int) n) (if ((at id bool) b) one val))
curried             (- ((add n) m) ((less 5) n))
curried part        (+ (twice2 (add n) m) (twice2 (less n) m))
curried as value    (+ (papply add n m) (papply less n m))
curried in data     (match (new Some ((-> int (-> int int))) less) ((None) 0) ((Some rf) ((rf n) m)))
curried poly        (- (((at (at konst int) bool) n) b) (((at (at konst int) int) m) 2))
curried poly part   (twice2 (let rf ((at (at konst int) int) n) rf) m)
curried poly value  (let rf (at (at konst int) int) (+ ((rf n) m) ((rf m) n)))
curried poly half   (let rf (at konst int) (+ (((at rf bool) n) b) (((at rf int) m) n)))
curried poly over   ((((at (at konst (-> int int)) bool) g) b) n)
curried poly over, parts (+ ((((at (at konst (-> int int)) bool) g) b) n) (twice2 (((at (at konst (-> int int)) int) g) m) n))
curried three       (- (((three n) m 2) 5) (((three 1) n 4) m))
curried three part  (let rf ((three n) m 2) (+ (rf 1) (rf 2)))
curried local       (rec rf (-> int (-> int int)) (fn (rx int) (fn (ry int) (if (< rx 1) ry ((rf (- rx 1)) (* ry 3))))) ((rf 2) n))
curried local part  (rec rf (-> int (-> int int)) (fn (rx int) (fn (ry int) (if (< rx 1) ry ((rf (- rx 1)) (- ry 3))))) (twice2 (rf 2) n))
curried order       (rec rf (-> int (-> int int (-> int int))) (fn (rx int) (fn (ry int rw int) (fn (rz int) (if (< rx 1) (- ry (- rw rz)) (((rf (- rx 1)) rz ry) rw))))) (((rf 1) n 2) m))
alias               (- ((alias n) m) (twice2 (alias 1) n))
work between        (let rf (later n) (+ (rf 1) (rf m)))
work in parts       (+ ((later n) m) ((count 3) 2))
poly trap           (if b n (+ ((at fail int) n) (if ((at fail bool) b) 1 2)))
big                 (- ((big n) m) (twice2 (big 1) n))
two at once         (- (both n m) (both (g n) 2))
poly data           (((at orelse int) o) ((at id int) n))
poly data part      (twice2 ((at orelse int) o) n)
poly value          (match (at none int) ((None) n) ((Some rx) rx))
constructor         (match ((at some int) (g n)) ((None) 1) ((Some rx) (- rx m)))
match of match      (match (match o ((None) (new A ())) ((Some rx) (new B () (+ rx n)))) ((A) 1) ((B ry) (* ry 2)) ((C rz rw) (+ rz rw)))
match, branches swapped (match (match o ((None) (new C () n (g m))) ((Some rx) (new A ()))) ((A) 1) ((B ry) (* ry 2)) ((C rz rw) (- rz rw)))
match, same twice   (match (match o ((None) (new B () 1)) ((Some rx) (new B () rx))) ((A) 1) ((B ry) (* ry 2)) ((C rz rw) (+ rz rw)))
match under let     (match (match t ((A) (let rx (g n) (new Some (int) rx))) ((B ry) (new None (int))) ((C rz rw) (new Some (int) rw))) ((None) 4) ((Some rv) (- rv n)))
match under lets    (match (match o ((None) (let rx (g n) (let ry (+ rx 1) (new C () ry rx)))) ((Some rw) (let ru (* rw 2) (new B () ru)))) ((A) 0) ((B rp) (- rp 1)) ((C rq rr) (- rq rr)))
match under rec     (match (match o ((None) (rec rf (-> int int) (fn (rx int) (if (< rx 1) n (rf (- rx 1)))) (new B () (rf 2)))) ((Some rw) (new A ()))) ((A) 9) ((B rp) rp) ((C rq rr) rr))
match of unknown    (match (match o ((None) t) ((Some rx) (new B () rx))) ((A) 1) ((B ry) ry) ((C rz rw) (- rz rw)))
match of three      (match (match t ((A) (new C () 1 2)) ((B rx) (new A ())) ((C ry rz) (new B () (- ry rz)))) ((A) 10) ((B rp) (+ rp 20)) ((C rq rr) (- rq rr)))
match of match of match (match (match (match o ((None) (new A ())) ((Some rx) (new B () rx))) ((A) (new None (int))) ((B ry) (new Some (int) ry)) ((C rz rw) (new None (int)))) ((None) 3) ((Some rv) (* rv n)))
match, trap inside  (match (match o ((None) (trap "no" Tri)) ((Some rx) (new B () rx))) ((A) 1) ((B ry) ry) ((C rz rw) rz))
match of if         (match (if b (new A ()) (new B () n)) ((A) 1) ((B ry) ry) ((C rz rw) rz))
match of one        (match (match (new Only () n) ((Only rx) (new Some (int) (+ rx m)))) ((None) 0) ((Some ry) ry))
match, not used     (match (match o ((None) (new C () (g n) (/ n m))) ((Some rx) (new B () (g rx)))) ((A) 1) ((B ry) 5) ((C rz rw) rz))
fold                (rec rf (-> (List int) (-> int int)) (fn (rl (List int)) (let rm (match rl ((Nil) (new A ())) ((Cons rh rt) (new B () rh))) (fn (rx int) (match rm ((A) rx) ((B ry) (+ rx ry)) ((C rz rw) rz))))) ((rf (new Cons (int) n (new Nil (int)))) m))
fold, recursive     (rec rf (-> (List int) (-> int int)) (fn (rl (List int)) (let rm (match rl ((Nil) (new Nil ((-> int int)))) ((Cons rh rt) (new Cons ((-> int int)) (rf rt) (new Nil ((-> int int)))))) (fn (rx int) (match rm ((Nil) rx) ((Cons rg ru) (rg (* rx 2))))))) ((rf (new Cons (int) n (new Cons (int) 1 (new Nil (int))))) m))
fold, with work     (rec rf (-> int (-> int int)) (fn (rl int) (let rm (g rl) (fn (rx int) (- rx rm)))) (+ ((rf n) m) (twice2 (rf 1) 2)))
fold, work in operator (rec rf (-> int (-> int int)) (fn (rl int) (let rm (+ (g rl) 1) (fn (rx int) (- rx rm)))) (+ ((rf n) m) (twice2 (rf 1) 2)))
fold, work in text  (rec rf (-> int (-> int int)) (fn (rl int) (let rm (len (show (g rl))) (fn (rx int) (- rx rm)))) (+ ((rf n) m) (twice2 (rf 1) 2)))
fold, work in field (rec rf (-> int (-> int int)) (fn (rl int) (let rm (new Some (int) (g rl)) (fn (rx int) (match rm ((None) 0) ((Some ry) (- rx ry)))))) (+ ((rf n) m) (twice2 (rf 1) 2)))
fold, other call    (rec rf (-> int (-> int int)) (fn (rl int) (let rm (new Some (int) (g rl)) (fn (rx int) (match rm ((None) 0) ((Some ry) (- rx ry)))))) (twice2 (rf n) 2))
fold, operator      (rec rf (-> int (-> int int)) (fn (rl int) (let rm (/ 7 rl) (fn (rx int) (- rx rm)))) (let rg (rf n) m))
rec                 (rec rf (-> int int) (fn (rx int) (if (< rx 1) n (* (rf (- rx 1)) 2))) (rf 3))
rec not used        (rec rf (-> int int) (fn (rx int) (rf rx)) (g n))
rec passed          (rec rf (-> int int) (fn (rx int) (if (< rx 1) n (rf (- rx 1)))) (twice2 rf 2))
rec in rec          (rec rf (-> int int) (fn (rx int) (rec rg (-> int int) (fn (ry int) (if (< ry 1) rx (rg (- ry 1)))) (if (< rx 1) m (rf (- (rg (- rx 1)) 1))))) (rf 2))
strings             (let rx (concat (show n) "x") (let ry (sub 0 1 rx) (+ (len ry) (char 0 rx))))
string let          (let rx (from n) (+ (len "a") (len rx)))
data                (match (new Cons (int) (g n) (new Nil (int))) ((Nil) 0) ((Cons rx ry) (match ry ((Nil) rx) ((Cons rz rw) rz))))
functions in data   (match (new Fun0 (int int) (fn (rx int) (+ rx n))) ((Fun0 rf) (rf m)) ((Fun1 ry) ry))
trap                (if b n (trap "no" int))
"""

# where an int may stand
PLACES = """
(here)
(g (here))
((h (here)) m)
((h m) (here))
(if (< (here) 3) n m)
(if b (here) m)
(if b m (here))
(+ (here) n)
(- n (here))
(len (show (here)))
(char (here) "abc")
((fn (pa int) (- pa (here))) m)
((fn (pa int pb int) (- pa pb)) m (here))
(let pa (here) (* pa pa))
(let pa (g m) (+ pa (here)))
(let pf (fn (pa int) (- (here) pa)) (- (pf 1) (pf 2)))
(let pf (fn (pa int) (- (here) pa)) (pf n))
(let pf (pi 'pv (fn (pa 'pv) (here))) (- ((at pf int) n) ((at pf bool) b)))
((at (pi 'pv (fn (pa 'pv) (here))) int) n)
(twice2 (fn (pa int) (- (here) pa)) m)
(match (new B () (here)) ((A) 1) ((B pa) (- pa m)) ((C pb pc) pc))
(match o ((None) (here)) ((Some pa) (- pa 1)))
(match o ((None) 6) ((Some pa) (- pa (here))))
(match (match o ((None) (new B () (here))) ((Some pa) (new A ()))) ((A) 2) ((B pb) (- pb n)) ((C pc pd) pd))
(match (match o ((None) (new B () n)) ((Some pa) (new A ()))) ((A) 2) ((B pb) (- pb (here))) ((C pc pd) pd))
(rec pf (-> int int) (fn (pa int) (if (< pa 1) (here) (pf (- pa 1)))) (pf 1))
(rec pf (-> int int) (fn (pa int) (if (< pa 1) m (pf (- pa 1)))) (- (here) (pf 1)))
(rec pf (-> int (-> int int)) (fn (pa int) (fn (pb int) (if (< pa 1) (- pb (here)) ((pf (- pa 1)) pb)))) ((pf 1) n))
"""
MORE = """
(def twice2 (-> (-> int int) int int) (fn (t2f (-> int int) t2x int) (+ (t2f t2x) (t2f (+ t2x 1)))))
(def papply (-> (-> int (-> int int)) int int int) (fn (paf (-> int (-> int int)) pax int pay int) ((paf pax) pay)))
"""

WHOLE = {
    "exports": """(export a int 1) (def unused int (+ a 1)) (export c (-> int int) (fn (x int) (+ x a))) (def d int (c 4)) (export e int (+ d a))
               (def z int (trap "no" int))""",
    "many exports": """(export a int 1) (def p int 2) (export d int (+ a p)) (export e (-> int int) (fn (x int) (+ x d))) (export h int (e 4)) (def q int (+ h 1))
               (export i int (+ q a)) (export j (-> int (-> int int)) (fn (y int) (fn (z int) (- y (- z i))))) (export k int ((j 1) 2)) (export l int 9)""",
    "exported curried": "(export f (-> int (-> int int)) (fn (x int) (fn (y int) (- x y)))) (export v int ((f 5) 3)) (export k (-> int int) (f 7))",
    "exported polymorphic": TYPES + """(export f (all 'a (all 'c (-> 'a (-> 'c 'a)))) (pi 'd (pi 'e (fn (x 'd) (fn (y 'e) x)))))
               (export s (all 'g (-> 'g (Opt 'g))) (pi 'k (fn (q 'k) (new Some ('k) (((at (at f 'k) int) q) 1)))))""",
    "exported data": TYPES + """(def add (-> int (-> int int)) (fn (x int) (fn (y int) (+ x y)))) (export p (Opt (-> int int)) (new Some ((-> int int)) (add 2)))
               (export q (Fun int (-> int int)) (new Fun0 (int (-> int int)) add)) (export e (Opt int) (new None (int)))""",
    "exported function of functions": """(export f (-> (-> int (-> int int)) (-> int int)) (fn (g (-> int (-> int int))) (fn (x int) ((g x) (- x 1)))))
               (def sub2 (-> int (-> int int)) (fn (p int) (fn (q int) (- p q)))) (export v int ((f sub2) 4))""",
    "order of definitions": """(def a int 2) (def c (-> int int) (fn (x int) (- x a))) (def d (-> int int) (fn (y int) (c (c y))))
               (def e (-> int int) (fn (z int) (d (+ (d z) a)))) (export r (-> int int) (fn (w int) (e w)))""",
    "sum of a list": TYPES + """(export sum (-> (List int) int) (fn (xs (List int)) (rec go (-> (List int) int) (fn (l (List int)) (match l ((Nil) 0)
               ((Cons u v) (+ u (go v))))) (go xs))))""",
    "known sum": TYPES + """(def sum (-> (List int) int) (fn (xs (List int)) (rec go (-> (List int) int) (fn (l (List int)) (match l ((Nil) 0)
               ((Cons u v) (+ u (go v))))) (go xs))))
               (export r (-> int int) (fn (n int) (sum (new Cons (int) n (new Cons (int) (* n 2) (new Nil (int)))))))""",
    "left fold": TYPES + """(def foldl (all 'a (all 'b (-> (-> 'b (-> 'a 'b)) (-> 'b (-> (List 'a) 'b))))) (pi 'c (pi 'd (fn (f (-> 'd (-> 'c 'd))) (fn (z 'd)
               (fn (xs (List 'c)) (rec go (-> (List 'c) (-> 'd 'd)) (fn (l (List 'c)) (match l ((Nil) (fn (i 'd) i)) ((Cons u v) (fn (k 'd) ((go v) ((f k) u))))))
               ((go xs) z))))))))
               (def minus (-> int (-> int int)) (fn (p int) (fn (q int) (- p q))))
               (export r (-> int int) (fn (n int) ((((at (at foldl int) int) minus) 100) (new Cons (int) n (new Cons (int) (* n 2) (new Nil (int)))))))""",
    "map": TYPES + """(def map (all 'a (all 'b (-> (-> 'a 'b) (-> (List 'a) (List 'b))))) (pi 'c (pi 'd (fn (f (-> 'c 'd)) (fn (xs (List 'c))
               (rec go (-> (List 'c) (List 'd)) (fn (l (List 'c)) (match l ((Nil) (new Nil ('d))) ((Cons u v) (new Cons ('d) (f u) (go v))))) (go xs)))))))
               (export r (-> (-> int bool) int (List bool)) (fn (k (-> int bool) n int) (((at (at map int) bool) k) (new Cons (int) n (new Cons (int) 2 (new Nil (int)))))))""",
    "compose": """(def comp (all 'a (all 'b (all 'c (-> (-> 'b 'c) (-> (-> 'a 'b) (-> 'a 'c)))))) (pi 'd (pi 'e (pi 'f (fn (x (-> 'e 'f)) (fn (y (-> 'd 'e))
               (fn (z 'd) (x (y z)))))))))
               (def inc (-> int int) (fn (i int) (+ i 1))) (def dbl (-> int int) (fn (j int) (* j 2)))
               (export r (-> int int) (((at (at (at comp int) int) int) inc) dbl)) (export s (-> int int) (((at (at (at comp int) int) int) dbl) inc))""",
    "fold of pairs": """(type (Pair 'a 'b) (Mk 'a 'b)) (def fst (all 'c (all 'd (-> (Pair 'c 'd) 'c))) (pi 'e (pi 'f (fn (p (Pair 'e 'f)) (match p ((Mk x y) x))))))
               (def swap (all 'g (all 'h (-> (Pair 'g 'h) (Pair 'h 'g)))) (pi 'i (pi 'j (fn (q (Pair 'i 'j)) (match q ((Mk u v) (new Mk ('j 'i) v u)))))))
               (export r (-> (Pair int bool) bool) (fn (w (Pair int bool)) ((at (at fst bool) int) ((at (at swap int) bool) w))))""",
}


def wide(n=9):
    """programs in which everything there may be several of is there many times: branches, fields, parameters, arguments, types,
    definitions, nested functions"""
    r = range(n)
    names = " ".join("x%d" % i for i in r)
    tys = " ".join("'t%d" % i for i in r)
    ints = " ".join(["int"] * n)
    kinds = "(type (Wide) %s)" % " ".join("(W%d int)" % i for i in r)
    plain = "(type (Plain) %s)" % " ".join("(P%d)" % i for i in r)
    tuple_ = "(type (Rec) (Rec0 %s))" % ints
    poly = "(type (Many %s) (Many0 %s))" % (tys, tys)
    cases = lambda f: " ".join("((W%d y%d) %s)" % (i, i, f(i)) for i in r)
    total = lambda of: "(+ " * (n - 1) + of(0) + "".join(" %s)" % (("(* %d " % (i + 1)) + of(i) + ")") for i in range(1, n))
    arrows = "int"
    for i in r:
        arrows = "(-> int %s)" % arrows
    curried = total(lambda i: "x%d" % i)
    for i in reversed(r):
        curried = "(fn (x%d int) %s)" % (i, curried)
    given = "f"
    for i in r:
        given = "(%s %s)" % (given, i + 3)
    some = given
    for i in range(n // 2):
        some = some[1:some.rindex(" ")]
    out = {}
    for k in sorted({0, 1, n // 2, n - 2, n - 1}):
        # a thing that one branch uses, and one that two of them do
        out["branch %d" % k] = kinds + """(export r (-> Wide int int) (fn (w Wide n int) (let a (/ n 3) (let h (fn (z int) (- z n))
            (match w %s)))))""" % cases(lambda i: "(- y%d (h a))" % i if i == k else "(+ y%d %d)" % (i, i))
        out["branch %d and another" % k] = kinds + """(export r (-> Wide int int) (fn (w Wide n int) (let h (fn (z int) (- z n))
            (match w %s))))""" % cases(lambda i: "(h y%d)" % i if i in (k, (k + n - 1) % n) else "(+ y%d %d)" % (i, i))
        out["match of branches %d" % k] = kinds + plain + """(export r (-> Wide int int) (fn (w Wide n int)
            (match (match w %s) %s)))""" % (
            cases(lambda i: "(new P%d ())" % ((i + k) % n)), " ".join("((P%d) (- n %d))" % (i, i * 2) for i in r))
        out["field %d" % k] = tuple_ + """(export r (-> int int (-> int int) Rec) (fn (n int m int g (-> int int)) (let a (g n) (let h (fn (z int) (- z m))
            (new Rec0 () %s)))))""" % " ".join("(- (h a) m)" if i == k else str(i) for i in r)
        out["field %d and another" % k] = tuple_ + """(export r (-> int int (-> int int) Rec) (fn (n int m int g (-> int int)) (let h (fn (z int) (- z m))
            (new Rec0 () %s))))""" % " ".join("(h (g %d))" % i if i in (k, (k + n - 1) % n) else str(i) for i in r)
        out["taken field %d" % k] = tuple_ + """(export r (-> int int int) (fn (n int m int)
            (match (new Rec0 () %s) ((Rec0 %s) (- x%d n)))))""" % (" ".join("(/ %d m)" % i for i in r), names, k)
        out["argument %d" % k] = """(def f (-> %s int) (fn (%s) %s)) (export r (-> int int int) (fn (n int m int) (let h (fn (z int) (- z m)) (f %s))))""" % (
            ints, " ".join("x%d int" % i for i in r), total(lambda i: "x%d" % i), " ".join("(h n)" if i in (k, (k + n - 1) % n) else str(i) for i in r))
        out["applied %d" % k] = """(export r (-> int int int) (fn (n int m int) (let a (/ n m) ((fn (%s) %s) %s))))""" % (
            " ".join("x%d int" % i for i in r), total(lambda i: "x%d" % i), " ".join("(- a n)" if i == k else "(- n %d)" % i for i in r))
        out["type %d" % k] = poly + """(def f (all 'a (-> 'a (Many %s))) (pi 'b (fn (v 'b) (new Many0 (%s) %s))))
            (export r (-> int bool int) (fn (n int b bool) (match ((at f int) n) ((Many0 %s) (- x%d 1)))))
            (export q (-> int bool bool) (fn (n int b bool) (match ((at f bool) b) ((Many0 %s) x%d))))""" % (
            " ".join("'a" if i == k else "int" for i in r), " ".join("'b" if i == k else "int" for i in r),
            " ".join("v" if i == k else str(i) for i in r), names, k, names, k)
        out["definition %d" % k] = " ".join("(def d%d int (+ %s 1))" % (i, "d%d" % (i - 1) if i else "0") for i in r) + "(export r int (- 50 d%d))" % k
        out["of definitions, %d" % k] = " ".join("(def d%d (-> int int) (fn (z%d int) (- z%d %d)))" % (i, i, i, i) for i in r) + \
            "(export r (-> int int) (fn (n int) (d%d (+ (d%d n) n))))" % (k, n - 1 - k)
    out["curried"] = "(def f %s %s) (export r int %s) (export g %s f)" % (arrows, curried, given, arrows)
    out["curried, part"] = "(def f %s %s) (export r %s %s)" % (
        arrows, curried, "(-> int " * (n // 2) + "int" + ")" * (n // 2), some)
    us = tys.replace("'t", "'u")
    fs = "(-> %s (Many %s))" % (us, us)
    for i in reversed(r):
        fs = "(all 'u%d %s)" % (i, fs)
    vs = tys.replace("'t", "'v")
    f = "(fn (%s) (new Many0 (%s) %s))" % (" ".join("x%d 'v%d" % (i, i) for i in r), vs, names)
    for i in reversed(r):
        f = "(pi 'v%d %s)" % (i, f)
    at = "f"
    for i in r:
        at = "(at %s %s)" % (at, "bool" if i % 2 else "int")
    out["types"] = poly + "(def f %s %s) (export r (-> int bool (Many %s)) (fn (n int b bool) (%s %s)))" % (
        fs, f, " ".join("bool" if i % 2 else "int" for i in r), at, " ".join("b" if i % 2 else "n" for i in r))
    return {"%s, %d wide" % (k, n): v for k, v in out.items()}


WHOLE.update(wide())


def programs():
    """(title, text)"""
    out = [(k, v) for k, v in WHOLE.items()]
    redexes = []
    for line in REDEXES.strip().split("\n"):
        i = line.index("(")
        redexes.append((line[:i].strip(), line[i:]))
    places = PLACES.strip().split("\n")
    for i, (title, r) in enumerate(redexes):
        for j, place in enumerate(places):
            out.append(("%s in %s" % (title, place), (i, j), r, place))
    return out


def text_of(e):
    if len(e) == 2:
        return e[1]
    _, _, r, place = e
    body = place.replace("(here)", r)
    return TYPES + needed(body) + "(export f %s (fn (%s) %s))" % (KINDS, ENV, body)


def needed(text):
    """the helpers it uses, and one that nothing uses"""
    out = []
    for line in reversed((HELP.strip() + MORE).strip().split("\n")):
        words = re.findall(r"[a-z0-9]+", line)
        if words[1] in re.findall(r"[a-z0-9]+", text) or words[1] == "unusedtwo":
            out.append(line)
            text += line
    return "\n".join(reversed(out))


def selected(deep):
    """all programs that stand on their own, and each rewrite in some of the places, or in all"""
    out = []
    for e in programs():
        if len(e) == 2 or deep or e[1][1] == 0 or (e[1][0] * 3 + e[1][1]) % 7 == 0:
            out.append(e)
    return out


def one(e):
    prog, each, whole, wargs = SHARED
    p = Reader(text_of(e)).program()
    w = wrong(p)
    if w:
        raise Anchor("%s: %s" % (e[0], w))
    n, obs = 0, []
    for f in each + [whole]:
        k, bad = judge(prog, p, f, wargs if f is whole else ["program"])
        n += k
        obs.append((f.id, bad))
    return n, obs


def followed(e):
    try:
        return bounded(one)(e)
    except Anchor as a:
        raise a if str(a).startswith(e[0]) else Anchor("%s: %s" % (e[0], a))


SHARED = None


def run(prog, rep):
    global SHARED
    each, whole, wargs = passes(prog)
    rep.floor("passes", len(each), 6)
    SHARED = (prog, each, whole, wargs)
    es = selected(os.environ.get("VERIF_TIER") == "thorough")
    where = {f.id: f.loc() for f in each + [whole]}
    n = 0
    with ProcessPoolExecutor(8, mp_context=get_context("fork"), initializer=lean) as pool:
        for e, (k, obs) in zip(es, pool.map(followed, es, chunksize=8)):
            n += k
            for f, bad in obs:
                rep.ob(not bad, "%s: %s" % (f, e[0]), bad or "", where[f])
    rep.floor("programs", len(es), 300)
    rep.floor("paths of programs compared", n, 3000)


def judge(prog, p, f, args):
    """(paths compared, what is wrong)"""
    q, way, bad = outcome(prog, f, p, args)
    if bad:
        return 0, bad
    n, last = 0, p
    for x in way + [q]:
        if x == last:
            continue
        last = x
        bad = wrong(x)
        if bad:
            return n, "gives a program in which " + bad
        k, bad = differ(p, x)
        n += k
        if bad:
            return n, "gives a program that computes something else: " + bad
    return n, None
