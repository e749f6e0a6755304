"""C31: the parser accepts exactly the forms of the grammar and builds their trees."""
import re
from ..mir import Anchor
from ..absint import Budget, State
from ..front import Front, OPTION, NONE, some, project
from .syn import Tree, Shapes, marks

TOKEN = "ticc_syntax::TokenKind"
KIND = "ticc_syntax::SyntaxKind"
RULE = ("every path through the rules of the parser, over the kinds of the tokens that are looked at: without an error the consumed tokens "
        "and the nodes made of them are a form of the grammar, every form is accepted whatever may follow it, no path panics, leaves a "
        "node open, or goes round a loop or into itself without consuming a token")
ASSUMPTIONS = ["lists of unbounded length are walked for up to two elements"]
EOF = "end of file"

# ---- the grammar. Capitalised: a token or, with brackets, a node; lower case: a rule
GRAMMAR = {
    "expr": "LetExpr(Let Name(Ident) [Colon type_] Equals expr Semicolon expr)"
            " | MatchExpr(Match expr With {MatchCase(Pipe Name(Ident) [Dot Name(Ident)] MatchVars({Name(Ident)}) Arrow expr)} End)"
            " | IfExpr(If expr Then expr Else expr)"
            " | LambdaExpr(Backslash [Fold] Name(Ident) Arrow expr)"
            " | op_expr",
    "atom_expr": "ParenExpr(LeftParen expr RightParen) | BoolExpr(True) | BoolExpr(False) | NumberExpr(Number) | StringExpr(String)"
                 " | NameExpr(Name(Ident)) | NamespacedNameExpr(Name(Ident) Dot Name(Ident)) | HoleExpr(Hole)",
    "type_": "atom_type | NamedType(Name(Ident) [Dot Name(Ident)] {atom_type})"
             " | FnType(atom_type Arrow type_) | FnType(NamedType(Name(Ident) [Dot Name(Ident)] {atom_type}) Arrow type_)",
    "atom_type": "IntType(Int) | BoolType(Bool) | StringType(StringTy) | NamedType(Name(Ident) [Dot Name(Ident)])"
                 " | ParenType(LeftParen type_ RightParen)",
    "item": "ValueItem([Export] Let Name(Ident) [Colon type_] Equals expr Semicolon)"
            " | TypeItem([Export] Type Name(Ident) [TypeParams(<Name(Ident)>)] Equals [Export]"
            " TypeCase([Pipe] Name(Ident) {RecField(Rec) | TypeField(atom_type)})"
            " {TypeCase(Pipe Name(Ident) {RecField(Rec) | TypeField(atom_type)})} Semicolon)"
            " | ImportItem(Import [Name(Ident)] [ExposedList(LeftParen [Name(Ident) {Comma Name(Ident)} [Comma]] RightParen)]"
            " From String Semicolon)",
}
OPS = ("Plus", "Minus", "Star", "Slash", "Percent", "Less", "LessEq", "Greater", "GreaterEq", "EqEq", "NotEq", "ArgPipe")


def parse_grammar(s):
    toks = re.findall(r"[A-Za-z_]+|[(){}<>\[\]|]", s)
    pos = [0]

    def alt():
        xs = [seq()]
        while pos[0] < len(toks) and toks[pos[0]] == "|":
            pos[0] += 1
            xs.append(seq())
        return ("alt", xs)

    def seq():
        out = []
        while pos[0] < len(toks) and toks[pos[0]] not in ("|", ")", "}", "]", ">"):
            t = toks[pos[0]]
            pos[0] += 1
            if t in "[{<":
                x = alt()
                pos[0] += 1
                out.append(({"[": "opt", "{": "rep", "<": "some"}[t], x))
            elif pos[0] < len(toks) and toks[pos[0]] == "(":
                pos[0] += 1
                x = alt()
                pos[0] += 1
                out.append(("node", t, x))
            else:
                out.append(("leaf", t))
        return ("seq", out)
    return alt()


def forms(g, n):
    """all forests of a grammar with up to n repetitions: tuples of leaves and (kind, children)"""
    k = g[0]
    if k == "leaf":
        return [(g[1],)]
    if k == "node":
        return [((g[1], f),) for f in forms(g[2], n)]
    if k == "opt":
        return [()] + forms(g[1], n)
    if k == "alt":
        return [f for x in g[1] for f in forms(x, n)]
    if k in ("rep", "some"):
        out, last = [()] if k == "rep" else [], [()]
        one = forms(g[1], n)
        for i in range(n):
            last = [a + b for a in last for b in one]
            out += last
        return out
    out = [()]
    for x in g[1]:
        fs = forms(x, n)
        out = [a + b for a in out for b in fs]
    return out


def flat(f):
    out = ()
    for x in f:
        out += flat(x[1]) if isinstance(x, tuple) else (x,)
    return out


def showf(f):
    return " ".join(x if isinstance(x, str) else "%s(%s)" % (x[0], showf(x[1])) for x in f)


class Parts:
    """the primitives every rule is made of"""

    def __init__(self, prog):
        self.prog = prog
        ds = [d for d, a in prog.adts.items() if d.startswith("ticc::compiler::") and a["kind"] == "struct" and
              any("Peekable<" in prog.tstr(f["t"]) for f in a["variants"][0]["f"])]
        if len(ds) != 1:
            raise Anchor("parsers: %s" % ds)
        self.P = ds[0]
        self.fns = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and "::tests" not in f.id]
        ad = lambda f, i: prog.adt_of(f.locals[i])
        mine = [f for f in self.fns if any(ad(f, i) == self.P for i in range(1, f.nargs + 1))]
        self.mine = mine

        def one(what, l):
            if len(l) != 1:
                raise Anchor("%s: %s" % (what, [f.id for f in l]))
            return l[0]
        self.peek = one("looking at the next token", [f for f in mine if f.nargs == 1 and prog.tstr(f.locals[0]) == "%s<%s>" % (OPTION, TOKEN)])
        self.complete = one("completing a node", [f for f in mine if f.nargs == 3 and ad(f, 3) == KIND and ad(f, 2) == self.P])
        self.Marker, self.Done = ad(self.complete, 1), ad(self.complete, 0)
        self.start = one("starting a node", [f for f in mine if f.nargs == 1 and ad(f, 0) == self.Marker])
        self.precede = one("starting a node around another", [f for f in mine if f.nargs == 2 and ad(f, 1) == self.Done and ad(f, 0) == self.Marker])
        ev = [prog.adt_of(prog.types[f["t"]]["a"][0]) for f in prog.adts[self.P]["variants"][0]["f"] if prog.tstr(f["t"]).startswith("alloc::vec::Vec<")]
        ev = [d for d in ev if d and prog.adts[d]["kind"] == "enum" and any(f["t"] is not None and prog.adt_of(f["t"]) == TOKEN
              for v in prog.adts[d]["variants"] for f in v["f"])]
        if len(ev) != 1:
            raise Anchor("events of the parser: %s" % ev)
        self.Event = ev[0]
        vs = prog.adts[self.Event]["variants"]
        self.vi = {}
        for i, v in enumerate(vs):
            ts = [prog.adt_of(f["t"]) for f in v["f"]]
            if ts == [TOKEN]:
                self.vi["token"] = i
            elif KIND in ts:
                self.vi["start"] = i
            elif len(ts) == 1 and "Diagnostic" in str(ts[0]):
                self.vi["error"] = i
        self.bump = one("consuming a token", [f for f in mine if self.makes(f, self.vi["token"])])
        self.error = one("reporting an error", [f for f in mine if self.makes(f, self.vi["error"])])
        self.kinds = [v["n"] for v in prog.adts[TOKEN]["variants"]]
        self.discrs = {int(v["discr"]): v["n"] for v in prog.adts[TOKEN]["variants"]}
        self.all = frozenset(self.kinds) | {EOF}

    def makes(self, f, vi):
        for b in f.blocks:
            for s in b["s"]:
                rv = s[1]
                if rv[0] == "agg" and rv[1].get("k") == "adt" and rv[1]["d"] == self.Event and rv[1]["vi"] == vi:
                    return True
        return False

    def rule(self, name, argt=None):
        l = [f for f in self.mine if f.id.split("::")[-1] == name and "::compiler::parser::" in f.id and self.prog.adt_of(f.locals[1]) == self.P]
        if len(l) != 1:
            raise Anchor("rule %s: %s" % (name, [f.id for f in l]))
        return l[0]


class Grammar(Front):
    """trace: ("P", "tok", i), ("P", "start", m), ("P", "complete", m, kind), ("P", "precede", m, new), ("P", "rule", name, i, m),
    ("P", "error", i), ("P", "at", site, way, tokens before),
    ("P", "in"), ("P", "out"); facts[("kinds", i)]: what token i may be"""
    max_steps = 3000000
    max_depth = 20

    def __init__(self, prog, parts, closed, summaries):
        super().__init__(prog)
        self.p = parts
        self.rules = closed             # id -> name
        self.summaries = summaries      # name -> kinds that begin it, for rules that may find nothing
        self.panics = []
        self.inside = False
        self.errors = True              # go on after an error
        self.longest = 99               # tokens and rules on a path

    def run(self, fn, args, st, depth):
        st.trace.append(("P", "in"))
        for s, v in super().run(fn, args, st, depth):
            s.trace.append(("P", "out"))
            yield s, v

    # tokens
    def pos(self, st):
        return st.facts.get(("pos",), 0)

    def eaten(self, st):
        return sum(1 for e in st.trace if e[:2] == ("P", "tok") or e[:2] == ("P", "rule") and e[2] in self.summaries)

    def may(self, st, i):
        return st.facts.get(("kinds", i), self.p.all)

    def narrowed(self, st, i, ks):
        ks = self.may(st, i) & ks
        if not ks:
            return None
        s = st.copy()
        s.facts[("kinds", i)] = ks
        return s

    def tok(self, v):
        """(index, 'option' or 'kind') of a term that is the next token"""
        if v[0] == "tok":
            return v[1], "option"
        if v[0] == "proj" and v[2] == 0:
            x = v[1]
            if x[0] == "proj" and x[2] == ("v", 1):
                x = x[1]
            if x[0] == "tok":
                return x[1], "kind"
        return None

    def cond(self, v):
        """(index, kinds for which the condition is true)"""
        if v[:2] == ("un", "Not"):
            c = self.cond(v[2])
            return c and (c[0], self.p.all - c[1])
        if v[0] == "bin" and v[1] in ("Eq", "Ne"):
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                k = None
                t = self.tok(a)
                if t and b[0] == "adt" and b[1] == OPTION and t[1] == "option":
                    if b[2] == 0:
                        k = frozenset((EOF,))
                    elif b[3][0][0] == "adt" and b[3][0][1] == TOKEN:
                        k = frozenset((self.p.kinds[b[3][0][2]],))
                    elif self.tok(b[3][0]) == (t[0], "kind"):
                        k = self.p.all - {EOF}
                elif t and t[1] == "kind" and b[0] == "adt" and b[1] == TOKEN:
                    k = frozenset((self.p.kinds[b[2]],))
                elif t and t == self.tok(b):
                    t, k = (t[0], t[1]), self.p.all
                elif a[:2] == ("call", "discr") and b[0] == "c" and self.tok(a[2]):
                    t = self.tok(a[2])
                    if t[1] == "kind":
                        k = frozenset((self.p.discrs[b[1]],))
                    else:
                        k = frozenset((EOF,)) if b[1] == 0 else self.p.all - {EOF}
                if k is not None:
                    return t[0], k if v[1] == "Eq" else self.p.all - k
        return None

    def switch(self, st, v, t, fn):
        if self.inside:
            return self.branches(st, v, t, fn)
        self.inside = True
        outs = self.branches(st, v, t, fn)
        self.inside = False
        if any(t is b["t"] for b in fn.blocks):
            n = self.eaten(st)
            outs = [(tb, s if s is not st else st.copy()) for tb, s in outs]
            for tb, s in outs:
                s.trace.append(("P", "at", id(t), tb, n))
        return outs

    def branches(self, st, v, t, fn):
        c = self.cond(v)
        if c:
            outs = []
            for val, tb in t["tg"]:
                s = self.narrowed(st, c[0], c[1] if int(val) else self.p.all - c[1])
                if s:
                    outs.append((tb, s))
            vals = {int(val) for val, tb in t["tg"]}
            for rest in {0, 1} - vals:
                s = self.narrowed(st, c[0], c[1] if rest else self.p.all - c[1])
                if s:
                    outs.append((t["e"], s))
            return outs
        if v[:2] == ("call", "discr") and self.tok(v[2]):
            i, what = self.tok(v[2])
            outs, by, left = [], {}, self.may(st, i)
            for val, tb in t["tg"]:
                if what == "option":
                    ks = frozenset((EOF,)) if int(val) == 0 else self.p.all - {EOF}
                else:
                    ks = frozenset((self.p.discrs[int(val)],))
                left -= ks
                by.setdefault(tb, set()).update(ks)
            for tb, ks in by.items():
                s = self.narrowed(st, i, frozenset(ks))
                if s:
                    outs.append((tb, s))
            if left and fn.blocks[t["e"]]["t"]["k"] != "unreachable":
                outs.append((t["e"], self.narrowed(st, i, left)))
            return outs
        return super().switch(st, v, t, fn)

    def truth(self, st, v):
        v = self.deep(st, v)
        c = self.cond(v)
        if c:
            out = []
            for b in (True, False):
                s = self.narrowed(st, c[0], c[1] if b else self.p.all - c[1])
                if s:
                    out.append((s, b))
            return out
        return super().truth(st, v)

    def split(self, v, st):
        w = self.deref(st, v)
        t = self.tok(w)
        if t and t[1] == "option":
            out = []
            for vi, ks in ((0, frozenset((EOF,))), (1, self.p.all - {EOF})):
                s = self.narrowed(st, t[0], ks)
                if s:
                    out.append((s, vi, project(w, (("v", vi), 0))))
            return out
        return super().split(v, st)

    def std(self, name, d, args, st, t, fn, depth):
        if name in ("is_some", "is_none", "unwrap", "expect") and args and "option" in d:
            w = self.deep(st, args[0])
            if self.tok(w):
                if name.startswith("is_"):
                    return [(st, ("bin", "Eq" if name == "is_none" else "Ne", w, NONE))]
                out = []
                for s, vi, x in self.split(w, st):
                    if vi:
                        out.append((s, x))
                    else:
                        self.diverged.append((s, fn, -1))
                return out
        return super().std(name, d, args, st, t, fn, depth)

    # primitives
    def consume(self, st, fn):
        i = self.pos(st)
        s = self.narrowed(st, i, self.p.all - {EOF})
        if EOF in self.may(st, i):
            self.panics.append((st, fn))
        if s is None or i >= self.longest:
            return None
        s.trace.append(("P", "tok", i))
        s.facts[("pos",)] = i + 1
        return s

    def model(self, name, callee, args, st, t, fn):
        p = self.p
        if callee == p.peek.id:
            return [(st, ("tok", self.pos(st)))]
        if callee == p.bump.id:
            s = self.consume(st, fn)
            return [(s, ("tup", ()))] if s else []
        if callee == p.start.id:
            m = sum(1 for e in st.trace if e[:1] == ("P",) and e[1] in ("start", "precede", "rule"))
            st.trace.append(("P", "start", m))
            return [(st, ("mk", m))]
        if callee == p.complete.id:
            m = self.deep(st, args[0])
            k = self.deep(st, args[2])
            k = self.prog.adts[KIND]["variants"][k[2]]["n"] if k[0] == "adt" else "?"
            st.trace.append(("P", "complete", m[1] if m[0] == "mk" else None, k))
            return [(st, m)]
        if callee == p.precede.id:
            m = self.deep(st, args[0])
            n = sum(1 for e in st.trace if e[:1] == ("P",) and e[1] in ("start", "precede", "rule"))
            st.trace.append(("P", "precede", m[1] if m[0] == "mk" else None, n))
            return [(st, ("mk", n))]
        if callee == p.error.id:
            st.trace.append(("P", "error", self.pos(st)))
            if not self.errors:
                return []
            out = []
            i = self.pos(st)
            for ks in (frozenset(("Error",)), p.all - {"Error"}):
                s = self.narrowed(st, i, ks)
                s = s and (self.consume(s, fn) if "Error" in ks else s)
                if s:
                    out.append((s, ("tup", ())))
            return out
        if callee in self.rules:
            n = self.rules[callee]
            i = self.pos(st)
            if i >= self.longest:
                return []
            m = sum(1 for e in st.trace if e[:1] == ("P",) and e[1] in ("start", "precede", "rule"))
            if n not in self.summaries:
                st.trace.append(("P", "rule", n, i, m, tuple(self.deep(st, a) for a in args[1:])))
                st.facts[("pos",)] = i + 1
                return [(st, ("tup", ()))]
            out = []
            for found, ks in self.summaries[n]:
                s = self.narrowed(st, i, ks)
                if s and found:
                    s.trace.append(("P", "rule", n, i, m, ()))
                    s.facts[("pos",)] = i + 1
                    out.append((s, some(("mk", m))))
                elif s:
                    out.append((s, NONE))
            return out
        return None


class Shape(Exception):
    pass


def forest(st, kinds):
    """tree of a path; leaves: index of a token or ("rule", name, index)"""
    out = []
    for e in st.trace:
        if e[0] != "P":
            continue
        if e[1] == "tok":
            out.append(e[2])
        elif e[1] == "rule":
            out.append(("node", e[4], "rule", (e[2], e[3])))
        elif e[1] == "start":
            out.append(("open", e[2]))
        elif e[1] == "complete":
            at = [i for i, x in enumerate(out) if x == ("open", e[2])]
            if len(at) != 1:
                raise Shape("a %s node is completed that was not started" % e[3])
            inner = out[at[0] + 1:]
            if any(isinstance(x, tuple) and x[0] == "open" for x in inner):
                raise Shape("a %s node is completed while a node in it is not" % e[3])
            out[at[0]:] = [("node", e[2], e[3], tuple(inner))]
        elif e[1] == "precede":
            at = [i for i, x in enumerate(out) if isinstance(x, tuple) and x[0] == "node" and x[1] == e[2]]
            if len(at) != 1:
                raise Shape("a node is started around one that is not there")
            out.insert(at[0], ("open", e[3]))
    if any(isinstance(x, tuple) and x[0] == "open" for x in out):
        raise Shape("a node is never completed")

    def strip(xs):
        r = []
        for x in xs:
            if isinstance(x, int):
                r.append(("tok", x))
            elif x[2] == "rule":
                r.append(("rule",) + x[3])
            else:
                r.append((x[2], strip(x[3])))
        return tuple(r)
    return strip(out)


def expand(f, kinds):
    """all forests with the kinds of tokens written out; [(forest of names)]"""
    out = [()]
    for x in f:
        if x[0] == "tok":
            ys = sorted(kinds(x[1]))
        elif x[0] == "rule":
            ys = [x[1]]
        else:
            ys = [(x[0], g) for g in expand(x[1], kinds)]
        out = [a + (y,) for a in out for y in ys]
    return out


def leaves_of(f):
    out = []
    for x in f:
        if x[0] in ("tok", "rule"):
            out.append(x)
        else:
            out += leaves_of(x[1])
    return out


def stalls(st):
    """a loop that comes back to the same place without consuming a token"""
    acts = []
    for e in st.trace:
        if e[:2] == ("P", "in"):
            acts.append(set())
        elif e[:2] == ("P", "out"):
            acts.pop()
        elif e[:2] == ("P", "at") and acts:
            if e[2:] in acts[-1]:
                return True
            acts[-1].add(e[2:])
    return False


class C31:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.p = Parts(prog)
        self.fn = {n: self.p.rule(n) for n in list(GRAMMAR) + ["op_expr"]}
        self.closed = {self.fn[n].id: n for n in ("expr", "type_", "op_expr", "atom_expr", "atom_type")}
        self.first = {True: {}, False: {}}   # errors -> rule -> [(finds something, kinds that begin it)]
        self.left = {}
        self.from_start = set()

    def run(self, name, errors, bound, longest=99, args=None):
        it = Grammar(self.prog, self.p, self.closed, self.first[errors])
        it.errors, it.loop_bound, it.longest = errors, bound, longest
        f = self.fn[name]
        st = State()
        if name == "item":
            st.facts[("kinds", 0)] = self.p.all - {EOF}
        return it, it.start(f, [("sym", "p")] + list(args or [("sym", "a%d" % i) for i in range(2, f.nargs + 1)]), st)

    # ---- rules
    def grammars(self):
        g = {n: parse_grammar(s) for n, s in GRAMMAR.items()}
        self.memo = {}

        def first(n):
            if n == "op_expr":
                return first("atom_expr")
            if n not in self.memo:
                self.memo[n] = frozenset()
                out = set()
                for f in forms(g[n], 1):
                    x = flat(f)[0]
                    out |= {x} if x[0].isupper() else first(x)
                self.memo[n] = frozenset(out)
            return self.memo[n]
        self.begin = {n: first(n) for n in list(GRAMMAR) + ["op_expr"]}
        self.follow = {n: set() for n in self.begin}
        self.follow["item"] = set(self.begin["item"]) | {EOF}
        self.follow["op_expr"] |= set(OPS)
        self.follow["atom_expr"] |= set(OPS) | self.begin["atom_expr"]
        pairs = [("op_expr", "op_expr"), ("atom_expr", "op_expr")]
        for n, x in g.items():
            for f in map(flat, forms(x, 2 if n != "item" else 1)):
                for a, b in zip(f, f[1:] + ("",)):
                    if a in self.follow and not b:
                        pairs.append((a, n))
                    elif a in self.follow:
                        self.follow[a] |= {b} if b not in self.begin else self.begin[b]
        for _ in range(9):
            for a, n in pairs:
                self.follow[a] |= self.follow[n]
        self.forms = {n: {k: forms(x, k) for k in (1, 2, 3)} for n, x in g.items() if n != "item"}
        self.forms["item"] = {k: forms(g["item"], min(k, 2)) for k in (1, 2, 3)}
        chain, x = [], ("atom_expr",)
        for i in range(3):
            chain.append(x)
            x = (("ApplyExpr", x + ("atom_expr",)),)
        ops = list(chain)
        last = list(chain)
        for i in range(2):
            last = [(("BinaryExpr", f + (("BinaryOp", (o,)), "op_expr")),) for f in last for o in OPS]
            ops += last
        self.forms["op_expr"] = {1: [f for f in ops if len(flat(f)) <= 4], 2: ops, 3: ops}

    def judge(self, name, bound, longest):
        rep, p = self.rep, self.p
        f = self.fn[name]
        where = f.loc()
        optional = self.prog.adt_of(f.locals[0]) == OPTION
        it, out = self.run(name, False, bound, longest)
        self.sound(name, it, out, where, False)
        accepted = {}
        for st, v in out:
            if optional and v[0] == "adt" and v[2] == 0:
                rep.ob(self.pos(st) == 0, "%s: nothing is found, nothing is consumed" % name,
                       "tokens are consumed although the rule reports that it found nothing", where)
                continue
            try:
                fr = forest(st, None)
            except Shape as e:
                continue
            ls = leaves_of(fr)
            looks = [it.may(st, i) for i in range(len(ls) + 1)]
            for e in expand(fr, lambda i: it.may(st, i)):
                accepted.setdefault(e, []).append(looks)
        self.paths += len(out)
        want = [f for f in self.forms[name][3]]
        wide = set(want)
        need = [f for f in self.forms[name][min(bound, 2)] if len(flat(f)) <= longest]
        for e in sorted(accepted, key=showf):
            rep.ob(e in wide, "%s: %s is a form of the grammar" % (name, showf(e)), "the parser accepts this without an error, or builds this "
                   "tree of it; it is not a form of the grammar", where)
        after = {}
        for f in wide:
            x = flat(f)
            for j in range(len(x)):
                after.setdefault(x[:j], set()).update({x[j]} if x[j][0].isupper() else self.begin[x[j]])
        for e in need:
            if not rep.ob(e in accepted, "%s: %s is accepted" % (name, showf(e)), "the parser reports an error for this form, or builds "
                          "another tree of it", where):
                continue
            x = flat(e)
            for j in range(len(x) + 1):
                if j < len(x) and x[j][0].isupper():
                    continue
                ks = frozenset().union(*[l[j] for l in accepted[e]])
                must = self.follow[name] - after.get(x[:j], set()) - set(OPS if name == "op_expr" else ()) if j == len(x) else \
                    self.begin[x[j]] - {k for k in after.get(x[:j], ()) if self.other(wide, x, j, k)}
                miss = sorted(must - ks)
                rep.ob(not miss, "%s: what may follow %s" % (name, " ".join(x[:j]) or "nothing"),
                       "an error is reported when it is followed by %s" % ", ".join(miss[:6]), where)
        self.report_forms += len(accepted)

    def other(self, wide, x, j, k):
        """another form has the token itself at this place"""
        key = (id(wide), x[:j])
        if key not in self.memo:
            self.memo[key] = {flat(f)[j] for f in wide if flat(f)[:j] == x[:j] and len(flat(f)) > j}
        at = self.memo[key]
        return k in at or any(n in self.begin and n != x[j] and k in self.begin[n] for n in at)

    def pos(self, st):
        return st.facts.get(("pos",), 0)

    def sound(self, name, it, out, where, errors):
        """no panic, no open node, no stalling"""
        rep, p = self.rep, self.p
        what = " after an error" if errors else ""
        bad = [(s, f) for s, f, b in it.diverged] + [(s, f) for s, f in it.panics]
        rep.ob(not bad, "%s: never panics%s" % (name, what), "a path ends in a panic in %s with %s" % (
            bad[0][1].id if bad and bad[0][1] else "?", self.input(it, bad[0][0])) if bad else "", where)
        opened = None
        for st, v in out:
            try:
                forest(st, None)
            except Shape as e:
                opened = opened or "%s, with %s" % (e, self.input(it, st))
        rep.ob(opened is None, "%s: every node that is started is completed%s" % (name, what), opened or "", where)
        st = next((s for s in [s for s, _ in out] + [s for s, f, b in it.loops] if stalls(s)), None)
        rep.ob(st is None, "%s: every round of a loop consumes a token%s" % (name, what),
               "a loop comes round again without having consumed a token: %s" % (st and self.input(it, st)), where)
        for st in [s for s, _ in out]:
            for e in st.trace:
                if e[:2] == ("P", "rule") and e[2] == "op_expr" and name != "op_expr":
                    self.from_start.add(e[5])
                if e[:2] == ("P", "rule") and e[3] == 0:
                    self.left.setdefault(name, set()).add(e[2])

    def input(self, it, st):
        xs = []
        for e in st.trace:
            if e[:2] == ("P", "tok"):
                ks = sorted(it.may(st, e[2]))
                xs.append(ks[0] if len(ks) == 1 else "any of %d tokens" % len(ks))
            elif e[:2] == ("P", "rule"):
                xs.append("<%s>" % e[2])
            elif e[:2] == ("P", "error"):
                xs.append("!")
        ks = sorted(it.may(st, self.pos(st)))
        return "%s then %s" % (" ".join(xs) or "nothing", "/".join(ks[:3]) if len(ks) <= 3 else "any of %d tokens" % len(ks))

    def after_error(self, name, bound, longest):
        it, out = self.run(name, True, bound, longest)
        f = self.fn[name]
        self.paths += len(out)
        self.sound(name, it, out, f.loc(), True)
        rep = self.rep
        if self.prog.adt_of(f.locals[0]) == OPTION:
            ok = all(v[0] == "adt" and (self.pos(st) > 0) == (v[2] == 1) for st, v in out)
            rep.ob(ok, "%s: something is found exactly when tokens are consumed" % name,
                   "the rule reports a node without having consumed a token, or none although it has", f.loc())
        if name == "item":
            rep.ob(all(any(e[:2] == ("P", "tok") for e in st.trace) for st, v in out), "item: at least one token is consumed",
                   "an item may end where it began: the compiler would never come to the end of the text", f.loc())
        return it, out

    def check(self):
        rep = self.rep
        self.paths = self.report_forms = 0
        self.grammars()
        for n in ("atom_type", "atom_expr"):
            for errors in (False, True):
                it, out = self.run(n, errors, 2)
                self.first[errors][n] = [(vi, frozenset().union(*[it.may(s, 0) for s, v in out if v[0] == "adt" and v[2] == vi]))
                                         for vi in (0, 1)]
        for n, bound, longest in (("atom_type", 2, 99), ("atom_expr", 2, 99), ("type_", 2, 99), ("expr", 2, 14), ("op_expr", 2, 99), ("item", 2, 10)):
            self.judge(n, bound, longest)
        for n, bound, longest in (("atom_type", 1, 99), ("atom_expr", 1, 99), ("type_", 1, 99), ("expr", 1, 8), ("op_expr", 1, 99), ("item", 1, 7)):
            self.after_error(n, bound, longest)
        self.operators()
        self.recursion()
        rep.count("paths of the rules", self.paths)
        rep.floor("forms accepted", self.report_forms, 100)

    def operators(self):
        """an expression may have any operator in it, however it is begun"""
        for args in sorted(self.from_start, key=str):
            it, out = self.run("op_expr", False, 1, 3, args)
            got = set()
            for st, v in out:
                try:
                    got |= {e for e in expand(forest(st, None), lambda i: it.may(st, i)) if len(e) == 1 and e[0][0] == "BinaryExpr"}
                except Shape:
                    pass
            for o in OPS:
                self.rep.ob((("BinaryExpr", ("atom_expr", ("BinaryOp", (o,)), "op_expr")),) in got, "expr: may be made with %s" % o,
                            "the operator is not accepted in an expression that is not an operand", self.fn["expr"].loc())
        self.rep.floor("ways to begin an expression of operators", len(self.from_start), 1)

    def recursion(self):
        def reach(n, seen):
            for m in self.left.get(n, ()):
                if m not in seen:
                    seen.add(m)
                    reach(m, seen)
            return seen
        for n in sorted(self.fn):
            self.rep.ob(n not in reach(n, set()), "%s: does not come back to itself without consuming a token" % n,
                        "the rule calls itself before it has consumed a token: it would never end", self.fn[n].loc())


# ---- what the accessors of the nodes give
EXPRS = ("NameExpr", "NamespacedNameExpr", "ApplyExpr", "BinaryExpr", "LetExpr", "MatchExpr", "IfExpr", "BoolExpr", "NumberExpr",
         "StringExpr", "LambdaExpr", "ParenExpr", "HoleExpr")
TYPES = ("IntType", "BoolType", "StringType", "FnType", "NamedType", "ParenType")
SUMS = {"Expr": EXPRS, "Type": TYPES, "Item": ("ImportItem", "ValueItem", "TypeItem"), "Field": ("RecField", "TypeField")}
# node -> accessor -> what it gives: "X" the first X, "X n" the n-th, "X > K" the first X after the first K, "X < K" the first before it,
# "X*" all of them; "X / Y" X if there is one, otherwise Y; "X if K"
ACCESS = {
    "ImportItem": {"name": "Name", "exposed_list": "ExposedList", "path": "String"},
    "ExposedList": {"imported_names": "Name*"},
    "TypeItem": {"name": "Name", "params": "TypeParams", "cases": "TypeCase*", "export_token": "Export < Equals",
                 "export_cases_token": "Export > Equals"},
    "TypeParams": {"params": "Name*"},
    "TypeCase": {"name": "Name", "fields": "Field*"},
    "TypeField": {"ty": "Type"},
    "FnType": {"from": "Type < Arrow", "to": "Type > Arrow"},
    "NamedType": {"namespace": "Name < Dot", "name": "Name > Dot / Name", "type_args": "Type*"},
    "ParenType": {"inner": "Type"},
    "ValueItem": {"name": "Name", "type_": "Type > Colon", "expr": "Expr > Equals"},
    "NameExpr": {"name": "Name"},
    "NamespacedNameExpr": {"namespace": "Name < Dot", "name": "Name > Dot"},
    "ApplyExpr": {"function": "Expr 0", "arg": "Expr 1"},
    "BinaryExpr": {"lhs": "Expr < BinaryOp", "op": "BinaryOp", "rhs": "Expr > BinaryOp"},
    "LetExpr": {"name": "Name", "type_": "Type > Colon", "value": "Expr > Equals", "rest": "Expr > Semicolon"},
    "MatchExpr": {"discr": "Expr > Match", "cases": "MatchCase*"},
    "IfExpr": {"cond": "Expr > If", "then_value": "Expr > Then", "else_value": "Expr > Else"},
    "LambdaExpr": {"is_fold": "Fold?", "param": "Name", "body": "Expr > Arrow"},
    "ParenExpr": {"inner": "Expr"},
    "MatchCase": {"namespace": "Name < Dot", "ctor": "Name > Dot / Name", "vars": "MatchVars", "body": "Expr > Arrow"},
    "MatchVars": {"vars": "Name*"},
}
for _n in ("IntType", "BoolType", "StringType", "BoolExpr", "NumberExpr", "StringExpr", "HoleExpr", "BinaryOp", "Name"):
    ACCESS[_n] = {"token": "token"}
TOKENS = {"lambda": "Backslash", "eq": "Equals", "semi": "Semicolon"}


class Access:
    """every accessor of a node gives the child that the grammar puts in its place"""

    def __init__(self, c):
        self.c, self.prog, self.rep = c, c.prog, c.rep
        self.sh = Shapes(self.prog)
        self.fns = {}
        for f in c.p.fns:
            if f.self_ty is not None and f.nargs == 1 and not f.trait_item:
                d = self.prog.adt_of(f.self_ty)
                if d and d.startswith("ticc::compiler::syntax::") and self.prog.adt_of(f.locals[1]) == d:
                    self.fns.setdefault(d.split("::")[-1], {})[f.id.split("::")[-1]] = (f, d)
        self.n = 0

    def nodes(self):
        """kind -> its forms: tuples of children"""
        out = {}

        def go(f):
            for x in f:
                if isinstance(x, tuple):
                    out.setdefault(x[0], set()).add(tuple(y[0] if isinstance(y, tuple) else y for y in x[1]))
                    go(x[1])
        for n in self.c.forms:
            for f in self.c.forms[n][2]:
                go(f)
        for k in out:
            for f in list(out[k]):
                for i in range(len(f) - 1):
                    if f[i] == f[i + 1]:
                        out[k].add(f[:i] + f[i:i + 1] * 7 + f[i:])
        return out

    def kids(self, form, ek, tk):
        out = []
        for i, x in enumerate(form):
            k = x
            if x[0].islower():
                k = tk if x in ("type_", "atom_type") else ek
            out.append((k, str(i)))
        return out

    def isa(self, k, what):
        return k == what or k in SUMS.get(what, ())

    def expected(self, spec, kids):
        if spec == "token":
            return [m for k, m in kids if k in self.c.p.kinds][:1], "one"
        if spec.endswith("?"):
            return any(k == spec[:-1] for k, m in kids), "bool"
        if spec.endswith("*"):
            return [m for k, m in kids if self.isa(k, spec[:-1])], "list"
        for alt in spec.split(" / "):
            w = alt.split()
            xs = [m for k, m in kids if self.isa(k, w[0])]
            if len(w) == 2:
                xs = xs[int(w[1]):]
            elif len(w) == 3:
                at = [int(m) for k, m in kids if k == w[2]]
                xs = [m for m in xs if at and (int(m) > at[0] if w[1] == ">" else int(m) < at[0])]
            if xs:
                return xs[:1], "one"
        return [], "one"

    def check(self):
        rep = self.rep
        nodes = self.nodes()
        for kind in sorted(nodes):
            if kind not in self.fns:
                continue
            acc = dict(ACCESS.get(kind, {}))
            for name in self.fns[kind]:
                if name.endswith("_token") and name not in acc:
                    t = name[:-6]
                    t = TOKENS.get(t, "".join(w.capitalize() for w in t.split("_")))
                    if t in self.c.p.kinds:
                        acc[name] = t
            if "dot" in self.fns[kind]:
                acc["dot"] = "Dot"
            for name in sorted(acc):
                if name in self.fns[kind]:
                    self.accessor(kind, name, acc[name], nodes[kind])
        rep.floor("accessors of nodes", self.n, 20)
        for d, f in sorted(Tree(self.prog).casts.items()):
            self.cast(d, f)

    def accessor(self, kind, name, spec, forms):
        f, d = self.fns[kind][name]
        bad = None
        eks = EXPRS if any("expr" in x for fm in forms for x in fm) else EXPRS[:1]
        tks = TYPES if any("type" in x for fm in forms for x in fm) else TYPES[:1]
        for form in sorted(forms):
            for i in range(max(len(eks), len(tks))):
                kids = self.kids(form, eks[min(i, len(eks) - 1)], tks[min(i, len(tks) - 1)])
                ch = []
                for k, m in kids:
                    ch += [("tok", k, m) if k in self.c.p.kinds else ("node", k, (), m), ("trivia", "Space", "space")]
                want, how = self.expected(spec, kids)
                if how == "one" and not want and self.absent(f):
                    continue
                it = Tree(self.prog)
                res = it.start(f, [("adt", d, 0, (self.sh.cursor(("node", kind, ch, "root")),))])
                got = [self.result(it, s, v, how) for s, v in res]
                if got != [want]:
                    bad = bad or "of the node %s( %s ) it gives %s instead of %s" % (
                        kind, " ".join(k for k, m in kids), self.show(got, kids), self.show([want], kids))
        self.n += 1
        self.rep.ob(bad is None, "accessor: %s::%s" % (kind, name), bad or "", f.loc())

    def absent(self, f):
        return not self.prog.tstr(f.locals[0]).startswith(OPTION)

    def show(self, got, kids):
        if len(got) != 1:
            return "no single result" if got else "nothing: it panics"
        if isinstance(got[0], bool):
            return str(got[0])
        if got[0] is None:
            return "something else"
        return " and ".join("the %s at place %s" % (kids[int(m)][0], m) if m.isdigit() else m for m in got[0]) or "nothing"

    def result(self, it, st, v, how):
        v = it.deep(st, v)
        if how == "bool":
            rs = it.truth(st, v)
            return rs[0][1] if len(rs) == 1 else None
        if how == "one":
            if v[0] == "adt" and v[1] == OPTION:
                return marks(v)
            return marks(v) if v[0] == "adt" else None
        if how == "list":
            rs = it.elems(v, st)
            if len(rs) != 1 or any(e[0] != "adt" for e in rs[0][1]):
                return None
            out = []
            for e in rs[0][1]:
                out += marks(it.deep(rs[0][0], e))
            return out

    def cast(self, d, f):
        name = d.split("::")[-1]
        if f.crate != "ticc":
            return
        kinds = [v["n"] for v in self.prog.adts[KIND]["variants"]]
        a = self.prog.adts[d]
        own = {}
        if a["kind"] == "enum":
            for i, v in enumerate(a["variants"]):
                ty = self.prog.adt_of(v["f"][0]["t"])
                own[ty.split("::")[-1]] = i
        for k in kinds:
            it = Tree(self.prog)
            res = it.start(f, [self.sh.cursor(("node", k, [("tok", "Ident", "0")], "root"))])
            vs = [it.deep(s, v) for s, v in res]
            ok = len(vs) == 1 and vs[0][0] == "adt" and vs[0][1] == OPTION
            if ok:
                v = vs[0]
                mine = k in own or k == name
                ok = (v[2] == 1) == mine and (not mine or marks(v) == ["root"])
                if ok and mine and a["kind"] == "enum":
                    ok = v[3][0][0] == "adt" and v[3][0][2] == own[k]
            if k in own or k == name or not ok:
                self.rep.ob(ok, "cast: a node of kind %s as %s" % (k, name), "it is not seen as what it is", f.loc())


def run(prog, rep):
    c = C31(prog, rep)
    c.check()
    Access(c).check()

