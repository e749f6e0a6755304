"""C12: the syntax trees hold the whole text, in order, and are the trees the rules of the parser made."""
from ..mir import Anchor
from ..absint import State, project
from ..front import OPTION, NONE, some
from ..known import Known, lin, add
from .c31 import Parts, TOKEN, KIND
from .syn import N, CN, E, TK, SK, TRIV, Shapes

RULE = ("every way to start, complete and precede nodes around up to three tokens, with any trivia between them, through the events of the "
        "parser and the tree builder: the tree has those nodes, its leaves are the tokens and trivia of the text with their extents, an "
        "item ends with the line of its last token or with the text; cursors give the children in order and the text of their extent")
ASSUMPTIONS = ["lists are walked for the lengths that are named", "the lexer gives tokens that follow each other without a gap"]
LIB = "ticc_syntax::"


def one(what, l):
    if len(l) != 1:
        raise Anchor("%s: %s" % (what, [f.id for f in l]))
    return l[0]


class Pipe(Known):
    def __init__(self, prog, c, tokens, program):
        super().__init__(prog)
        self.c, self.tokens, self.program = c, tokens, program
        self.n_errors = 0
        self.nothing = False            # the rule is asked for an item where there are no tokens

    def model(self, name, callee, args, st, t, fn):
        c = self.c
        if callee == c.lex.id:
            return [(st, ("arr", self.tokens))]
        if callee == c.item.id:
            if all(c.is_trivia(c.lk[x[3][c.ki][2]]) for x in self.tokens):
                self.nothing = True
            return [(s, ("c", 1)) for s in self.perform(args[0], st)]
        if callee == c.p.error.id:
            self.emit(args[0], st)
            return [(st, ("tup", ()))]
        return super().model(name, callee, args, st, t, fn)

    def emit(self, parser, st):
        root, path = self.target(st, parser)
        path += (self.c.events,)
        r, p = self.target(st, ("ptr", root, path))
        old = self.load(st, r, p)
        self.store(st, r, p, ("arr", old[1] + (("adt", self.c.p.Event, self.c.p.vi["error"], (("sym", "error %d" % self.n_errors),)),)))
        self.n_errors += 1

    def perform(self, parser, st):
        """the steps of a rule: bump, start, complete, precede, error"""
        p = self.c.p
        live = [st]
        for op in self.program:
            nxt = []
            for s in live:
                if op[0] == "bump":
                    nxt += [s2 for s2, v in self.run(p.bump, [parser], s, 1)]
                elif op[0] == "peek":
                    nxt += [s2 for s2, v in self.run(p.peek, [parser], s, 1)]
                elif op[0] == "error":
                    self.emit(parser, s)
                    nxt.append(s)
                elif op[0] == "start":
                    for s2, v in self.run(p.start, [parser], s, 1):
                        s2.env[("mk", op[1])] = v
                        nxt.append(s2)
                elif op[0] == "complete":
                    k = ("adt", SK, [i for i, v in enumerate(self.prog.adts[SK]["variants"]) if v["n"] == op[2]][0], ())
                    for s2, v in self.run(p.complete, [s.env[("mk", op[1])], parser, k], s, 1):
                        s2.env[("mk", op[1])] = v
                        nxt.append(s2)
                elif op[0] == "precede":
                    for s2, v in self.run(p.precede, [s.env[("mk", op[1])], parser], s, 1):
                        s2.env[("mk", op[2])] = v
                        nxt.append(s2)
            live = nxt
        return live


KINDS = ("NameExpr", "ApplyExpr", "ParenExpr", "IfExpr", "LetExpr", "BinaryExpr", "Name", "BinaryOp")


def trees(leaves, depth, nodes):
    """all forests with exactly this many leaves: 0 is a leaf, ("n", mode, children) a node"""
    memo = {}

    def forest(l, d, n):
        k = (l, d, n)
        if k not in memo:
            out = [()] if l == 0 else []
            if l > 0:
                out += [(0,) + f for f in forest(l - 1, d, n)]
            if d and n:
                for l1 in range(l + 1):
                    for f in forest(l1, d - 1, n - 1):
                        m = count(f)
                        for rest in forest(l - l1, d, n - 1 - m):
                            out.append((("n", "start", f),) + rest)
                            if f and f[0] != 0:
                                out.append((("n", "precede", f),) + rest)
            memo[k] = out
        return memo[k]

    def count(f):
        return sum(1 + count(x[2]) for x in f if x != 0)
    return forest(leaves, depth, nodes)


def program(forest, kinds=KINDS):
    """the steps that make a forest, and the forest with its kinds: leaves are token numbers"""
    ops, ctr, tok = [], [0], [0]

    def go(f, kinds_out):
        for x in f:
            if x == 0:
                ops.append(("bump",))
                kinds_out.append(tok[0])
                tok[0] += 1
                continue
            node(x, kinds_out)

    def node(x, out):
        ctr[0] += 1
        me = ctr[0]
        kind = kinds[me % len(kinds)]
        inner = []
        if x[1] == "start":
            ops.append(("start", me))
            go(x[2], inner)
        else:
            first = node(x[2][0], inner)
            ops.append(("precede", first, me))
            go(x[2][1:], inner)
        ops.append(("complete", me, kind))
        out.append((kind, tuple(inner)))
        return me
    out = []
    go(forest, out)
    return ops, tuple(out)


class C12:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.p = Parts(prog)
        P = prog.adts[self.p.P]["variants"][0]["f"]
        self.events = one("events of the parser", [i for i, f in enumerate(P) if prog.tstr(f["t"]) == "alloc::vec::Vec<%s>" % self.p.Event])\
            if False else [i for i, f in enumerate(P) if self.p.Event in prog.tstr(f["t"])][0]
        fns = self.p.fns
        self.item = self.p.rule("item")
        tok = [d for d, a in prog.adts.items() if d.startswith("ticc::compiler::lexer") and a["kind"] == "struct" and len(a["variants"][0]["f"]) == 2]
        self.Lexed = one("lexed tokens", [type("X", (), {"id": d}) for d in tok]).id
        fs = prog.adts[self.Lexed]["variants"][0]["f"]
        self.ki = [i for i, f in enumerate(fs) if prog.adts.get(prog.adt_of(f["t"]), {}).get("kind") == "enum"][0]
        self.LK = prog.adt_of(fs[self.ki]["t"])
        self.lex = one("the lexer", [f for f in fns if f.nargs == 1 and f.file.endswith("lexer.rs") and not f.trait_item and
                                     "str" in prog.tstr(f.locals[1])])
        self.parse = one("parsing an item", [f for f in fns if f.nargs == 2 and "::compiler::parser" in f.id and
                                             str(prog.adt_of(f.locals[0])).endswith("ir::Item")])
        self.Item = prog.adt_of(self.parse.locals[0])
        self.Pos, self.Span = LIB + "pos::Pos", LIB + "pos::Span"
        for d in (self.Pos, self.Span):
            if d not in prog.adts:
                raise Anchor(d)
        self.lk = [v["n"] for v in prog.adts[self.LK]["variants"]]
        self.sh = Shapes(prog)

    # ---- terms
    def pos(self, x):
        return ("adt", self.Pos, 0, (x,))

    def lexed(self, kinds):
        """tokens of a text of these kinds; token i extends from b<i> to b<i+1>, b0 = 0"""
        out = []
        for i, k in enumerate(kinds):
            sp = ("adt", self.Span, 0, (self.pos(self.at(i)), self.pos(self.at(i + 1))))
            kd = ("adt", self.LK, self.lk.index(k), ())
            f = [sp, sp]
            f[self.ki] = kd
            out.append(("adt", self.Lexed, 0, tuple(f)))
        return tuple(out)

    def at(self, i, base=None):
        x = ("c", 0) if i == 0 else ("sym", "b%d" % i)
        return add(x, base) if base else x

    def span_of(self, v):
        return v[3][0][3][0], v[3][1][3][0]

    def is_trivia(self, k):
        return k in ("Space", "Newline", "Comment")

    def name(self, k):
        return "Ident" if k == "Name" else k

    # ---- the pipeline
    def parse_run(self, kinds, ops):
        it = Pipe(self.prog, self, self.lexed(kinds), ops)
        P = ("sym", "P")
        res = it.start(self.parse, [("sym", "source"), self.pos(P)])
        return it, [(s, it.deep(s, v)) for s, v in res]

    def field(self, v, name):
        fs = self.prog.adts[v[1]]["variants"][v[2]]["f"]
        return v[3][[f["n"] for f in fs].index(name)]

    def judge(self, kinds, ops, want, eof):
        """why a run is wrong, or None"""
        it, res = self.parse_run(kinds, ops)
        if it.nothing:
            return "an item is expected where the text has ended"
        if it.diverged or len(res) != 1 or it.loops:
            return "it panics" if it.diverged else "it does not end" if it.loops else "no single outcome (%d)" % len(res)
        st, v = res[0]
        self.runs += 1
        tree = self.field(v, "syntax")
        while tree[0] == "adt" and tree[1] != LIB + "SyntaxTree":
            tree = tree[3][0]
        P = ("sym", "P")
        if self.field(tree, "start_pos") != self.pos(P) or self.field(tree, "source") != ("sym", "source"):
            return "the tree does not know its text or where it begins: %s" % (self.field(tree, "start_pos"),)
        root = self.field(tree, "root")
        leaves, ids = [], []
        try:
            shape = self.walk(root, leaves, ids)
        except (IndexError, KeyError, TypeError) as e:
            return "the tree is not followed (%s)" % e
        ntok = sum(1 for o in ops if o[0] == "bump")
        toks = [i for i, k in enumerate(kinds) if not self.is_trivia(k)]
        n = len(kinds)
        if len(toks) > ntok:
            last = toks[ntok - 1] + 1 if ntok else 0
            n = toks[ntok]
            for i in range(last, toks[ntok]):
                if kinds[i] == "Newline":
                    n = i + 1
                    break
        exp = [(self.name(kinds[i]), self.at(i, P), self.at(i + 1, P)) for i in range(n)]
        if [l[:3] for l in leaves] != exp:
            return "the leaves of the tree are %s; the text is %s" % (self.pl(leaves), self.pl(exp))
        for l, e in zip(leaves, exp):
            if (l[3] == "Trivia") != self.is_trivia(e[0]):
                return "%s is a %s" % (e[0], l[3])
        if len(set(ids)) != len(ids):
            return "two nodes have the same number"
        number = {i: j for j, i in enumerate(t for t in toks if t < n)}
        s = self.strip(shape, number)
        if s[0] != "Root" or s[1] != want:
            return "the tree is %s instead of %s" % (s, ("Root", want))
        sp = self.field(v, "span")
        if self.span_of(sp) != (P, self.at(n, P)):
            return "the item's extent is %s; it should end after %s" % (self.show(self.span_of(sp)), " ".join(kinds[:n]) or "nothing")
        bad = self.spans(root, leaves)
        if bad:
            return bad
        ds = self.field(v, "diagnostics")
        if any(o[0] == "error" for o in ops) and (ds[0] != "arr" or not ds[1] or ds[1][0] != ("sym", "error 0")):
            return "the first error is not among the diagnostics"
        if not any(o[0] == "error" for o in ops) and ds != ("arr", ()):
            return "there are diagnostics without an error"
        return None

    def walk(self, node, leaves, ids):
        if node[0] != "adt" or node[1] != N:
            raise TypeError("node")
        ids.append(self.field(node, "id"))
        kind = self.prog.adts[SK]["variants"][self.field(node, "kind")[2]]["n"]
        ch = self.field(node, "children")
        if ch[0] != "arr":
            raise TypeError("children")
        out = []
        for e in ch[1]:
            vn = self.prog.adts[e[1]]["variants"][e[2]]["n"]
            x = e[3][0]
            if vn == "Node":
                out.append(self.walk(x, leaves, ids))
            else:
                k = self.field(x, "kind")
                a, b = self.span_of(self.field(x, "span"))
                leaves.append((self.prog.adts[k[1]]["variants"][k[2]]["n"], a, b, vn))
                out.append(len(leaves) - 1 if vn == "Token" else None)
        return kind, tuple(out)

    def strip(self, shape, number):
        return shape[0], tuple(self.strip(x, number) if isinstance(x, tuple) else number.get(x) for x in shape[1] if x is not None)

    def spans(self, root, leaves):
        bad = []

        def go(node):
            """(all leaf extents, token extents, whether it begins and ends with a token)"""
            al, tk, edge = [], [], []
            for e in self.field(node, "children")[1]:
                vn = self.prog.adts[e[1]]["variants"][e[2]]["n"]
                if vn == "Node":
                    a, t, ed = go(e[3][0])
                    al += a
                    tk += t
                    edge.append(ed)
                else:
                    x = self.span_of(self.field(e[3][0], "span"))
                    al.append(x)
                    if vn == "Token":
                        tk.append(x)
                        edge.append((True, True))
            edge = (edge[0][0], edge[-1][1]) if edge else (False, False)
            if al and self.span_of(self.field(node, "full_span")) != (al[0][0], al[-1][1]):
                bad.append("a node's full extent is %s; its text is %s" % (self.show(self.span_of(self.field(node, "full_span"))), self.show((al[0][0], al[-1][1]))))
            if all(edge) and self.span_of(self.field(node, "span")) != (tk[0][0], tk[-1][1]):
                bad.append("a node's extent is %s; its tokens are %s" % (self.show(self.span_of(self.field(node, "span"))), self.show((tk[0][0], tk[-1][1]))))
            return al, tk, edge
        go(root)
        return bad[0] if bad else None

    def show(self, x):
        def s(t):
            if t[0] == "lin":
                return " + ".join(([str(t[1])] if t[1] else []) + ["%s%s" % ("" if v == 1 else "%d*" % v, s(k)) for k, v in t[2]])
            return str(t[1]) if len(t) > 1 else str(t)
        return "%s..%s" % (s(x[0]), s(x[1]))

    def pl(self, ls):
        return " ".join("%s[%s]" % (l[0], self.show(l[1:3])) for l in ls) or "none"

    def pipeline(self):
        rep = self.rep
        where = self.parse.loc()
        tokens = ("Name", "Plus", "Number")
        gaps = [(), ("Space",), ("Newline",), ("Space", "Comment", "Newline", "Space"), ("Newline", "Newline"), ("Comment", "Newline", "Comment")]
        # shapes
        bad = None
        n = 0
        for l in (1, 2, 3):
            for f in trees(l, 4, {1: 4, 2: 3, 3: 2}[l]):
                ops, want = program(f)
                kinds = []
                for i in range(l):
                    kinds += [tokens[i], "Space"]
                r = self.judge(kinds, ops, want, True)
                n += 1
                if r:
                    bad = bad or "%s: for the nodes %s" % (r, want)
        rep.ob(bad is None, "the tree has the nodes that the rules made, for every way to make them", bad or "", where)
        rep.count("ways to make nodes", n)
        # trivia
        bad, n = None, 0
        f = (("n", "start", (0, ("n", "start", (0,)))),)
        ops, want = program(f)
        for g0 in gaps:
            for g1 in gaps:
                for g2 in gaps:
                    for more in (False, True):
                        kinds = list(g0) + ["Let"] + list(g1) + ["Name"] + list(g2) + (["Semicolon", "Space"] if more else [])
                        r = self.judge(kinds, ops, want, not more)
                        n += 1
                        if r:
                            bad = bad or "%s: for a text of %s, the first two tokens being an item" % (r, " ".join(kinds))
        rep.ob(bad is None, "trivia between tokens are in the tree once, in their place, and the item ends with its line", bad or "", where)
        rep.count("texts with trivia", n)
        bad = None
        for g0 in gaps:
            r = self.judge(list(g0), [], (), True)
            if r:
                bad = bad or "%s: for a text of %s" % (r, " ".join(g0) or "nothing")
        rep.ob(bad is None, "a text without tokens is an item", bad or "", where)
        # every kind of node
        for v in self.prog.adts[SK]["variants"]:
            f, want = program((("n", "start", (0, ("n", "start", (0,)))), ("n", "precede", (("n", "start", (0,)),))), (v["n"],))
            r = self.judge(["Let", "Name", "Space", "Plus"], f, want, True)
            rep.ob(r is None, "nodes of kind %s stay what they are" % v["n"], r or "", where)
        # every kind of token
        for k in self.lk:
            if not self.is_trivia(k):
                f, want = program((("n", "start", (0, 0)),))
                r = self.judge(["Let", k, "Space"], f, want, True)
                rep.ob(r is None, "the token %s stays what it is" % k, r or "", where)
        # errors
        bad = None
        for i in range(7):
            for j in range(i, 7):
                ops, want = program((("n", "start", (0, ("n", "start", (0,)), 0)),))
                ops = ops[:j] + [("error",)] + ops[j:]
                ops = ops[:i] + [("error",)] + ops[i:]
                for g in gaps:
                    kinds = list(g) + ["Let", "Space", "Name", "Plus", "Newline"]
                    r = self.judge(kinds, ops, want, True)
                    if r:
                        bad = bad or "%s: for a text of %s" % (r, " ".join(kinds))
        rep.ob(bad is None, "the first error of an item is always reported", bad or "", where)

    # ---- cursors
    def cursors(self):
        prog, rep = self.prog, self.rep
        P = ("sym", "P")
        tree_adt = LIB + "SyntaxTree"
        tree = self.sh.struct(tree_adt, start_pos=self.pos(P), source=("sym", "source"))

        def span(a, b):
            return ("adt", self.Span, 0, (self.pos(add(("sym", a), P)), self.pos(add(("sym", b), P))))
        ctr = [0]

        def make(x):
            """x: a kind of token, trivia, or (kind, children) -> element"""
            ctr[0] += 1
            i = ctr[0]
            if isinstance(x, tuple):
                k = ("adt", SK, [j for j, v in enumerate(prog.adts[SK]["variants"]) if v["n"] == x[0]][0], ())
                return ("adt", E, self.vi(E, "Node"), (self.sh.struct(N, kind=k, children=("arr", tuple(make(y) for y in x[1])),
                        id=("sym", "id%d" % i), span=span("s%d" % i, "e%d" % i), full_span=span("fs%d" % i, "fe%d" % i)),))
            triv = self.is_trivia(x)
            k = ("adt", TRIV if triv else TK, self.vi(TRIV if triv else TK, x), ())
            return ("adt", E, self.vi(E, "Trivia" if triv else "Token"),
                    (self.sh.struct(LIB + ("TriviaToken" if triv else "SyntaxToken"), kind=k, span=span("s%d" % i, "e%d" % i)),))
        root = make(("LetExpr", ("Space", "Let", ("Name", ("Ident", "Space")), "Comment", ("NameExpr", (("Name", ("Ident",)), "Newline")),
                                 "Plus", ("BinaryOp", ()))))[3][0]

        def key(x):
            """what a raw or cursor element is"""
            x = x[3][0] if x[0] == "adt" and x[1] in (E, LIB + "cursor::SyntaxElement") else x
            while x[0] == "adt" and x[1].startswith(LIB + "cursor::"):
                x = x[3][0]
            return str(x)
        fns = {}
        for f in prog.fns.values():
            if f.crate == "ticc_syntax" and f.self_ty is not None and f.nargs == 1 and not f.trait_item:
                d = prog.adt_of(f.self_ty)
                if d and d.startswith(LIB + "cursor::"):
                    fns[d.split("::")[-1], f.id.split("::")[-1]] = f
        cursor = lambda d, x: ("adt", LIB + "cursor::" + d, 0, tuple(
            tree if fl["n"] == "tree" else x for fl in prog.adts[LIB + "cursor::" + d]["variants"][0]["f"]))
        n = 0
        for d, x in (("SyntaxNode", root), ("SyntaxToken", self.field(root, "children")[1][1][3][0]),
                     ("TriviaToken", self.field(root, "children")[1][0][3][0])):
            for name, fld in (("text", "span"), ("full_text", "full_span")):
                f = fns.get((d, name))
                if f is None:
                    continue
                n += 1
                it = Known(prog)
                res = [it.deep(s, v) for s, v in it.start(f, [cursor(d, x)])]
                a, b = [add(t, P, -1) for t in self.span_of(self.field(x, fld))]
                ok = len(res) == 1 and res[0][:2] == ("call", "index") and res[0][2] == ("sym", "source") and \
                    res[0][3][0] == "adt" and res[0][3][3] == (a, b)
                rep.ob(ok, "%s::%s is the part of the text in the extent" % (d, name), "it is another text: %s" % (res[:1],), f.loc())
            for name in ("id", "kind", "span", "full_span"):
                f = fns.get((d, name))
                if f is None:
                    continue
                n += 1
                it = Known(prog)
                res = [it.deep(s, v) for s, v in it.start(f, [cursor(d, x)])]
                rep.ob(res == [self.field(x, name)], "%s::%s" % (d, name), "it is another value", f.loc())
        # children
        kids = self.field(root, "children")[1]
        nodes = [e for e in kids if e[2] == self.vi(E, "Node")]
        for name, want in (("all_children", kids), ("children", nodes)):
            f = fns.get(("SyntaxNode", name))
            if f is None:
                continue
            n += 1
            it = Known(prog)
            got = [[it.deep(s2, e) for e in es] for s, v in it.start(f, [cursor("SyntaxNode", root)]) for s2, es in it.elems(v, s)]
            ok = len(got) == 1 and [key(e) for e in got[0]] == [key(e) for e in want] and (name == "children" or all(
                prog.adts[g[1]]["variants"][g[2]]["n"] == prog.adts[E]["variants"][w[2]]["n"] for g, w in zip(got[0], want)))
            rep.ob(ok, "SyntaxNode::%s gives them all, in order, as what they are" % name, "children are lost, repeated, out of order or mixed up", f.loc())

        def descend(x, elems):
            out = [x]
            if x[1] == E and x[2] != self.vi(E, "Node"):
                return out
            for y in self.field(x[3][0] if x[1] == E else x, "children")[1]:
                if elems or y[2] == self.vi(E, "Node"):
                    out += descend(y, elems)
            return out
        for name in ("descendants", "descendant_elements"):
            f = fns.get(("SyntaxNode", name))
            if f is None:
                continue
            it = Known(prog)
            res = it.start(f, [cursor("SyntaxNode", root)])
            ds = [g for g in prog.fns.values() if g.trait_item and g.trait_item.endswith("InternalIterator::find_map") and g.self_ty is not None and
                  len(res) == 1 and prog.adt_of(g.self_ty) == res[0][1][1]] if len(res) == 1 and res[0][1][0] == "adt" else []
            if len(ds) != 1:
                raise Anchor("walk of %s" % name)
            n += 1
            want = [key(x) for x in descend(root, name == "descendant_elements")]
            ok = False
            outs = it.start(ds[0], [res[0][1], ("sym", "f")], res[0][0])
            ok = True
            full = False
            for s, v in outs:
                seen = [key(e[2][1]) for e in s.trace if e[:2] == ("call", "apply") and e[2][0] == ("sym", "f")]
                ok = ok and seen == want[:len(seen)]
                full = full or len(seen) == len(want)
                found = v[0] == "adt" and v[2] == 1 or v[0] == "call"
                ok = ok and (found or len(seen) == len(want))
            rep.ob(ok and full and not it.loops, "SyntaxNode::%s visits all of them once, parents first, in order" % name,
                   "elements of the tree are lost, repeated or out of order", ds[0].loc())
        rep.floor("cursor functions", n, 8)

    def vi(self, adt, n):
        return [i for i, v in enumerate(self.prog.adts[adt]["variants"]) if v["n"] == n][0]

    def check(self):
        self.runs = 0
        self.pipeline()
        self.cursors()
        self.rep.floor("runs of the pipeline", self.runs, 100)


def run(prog, rep):
    C12(prog, rep).check()
