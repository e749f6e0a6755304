"""Value flow through code that reads a syntax tree of a known shape: the children of a node are a list of known
length, each with its own kind and identity."""
from ..front import Front, OPTION, NONE, some
from ..absint import leaves

N = "ticc_syntax::SyntaxNode"
CN = "ticc_syntax::cursor::SyntaxNode"
E = "ticc_syntax::SyntaxElement"
TK, SK, TRIV = "ticc_syntax::TokenKind", "ticc_syntax::SyntaxKind", "ticc_syntax::TriviaKind"


def index(prog, adt, n):
    return [i for i, v in enumerate(prog.adts[adt]["variants"]) if v["n"] == n][0]


class Tree(Front):
    """a type parameter of a helper stands for the type its last caller gave it"""
    max_steps = 400000

    def __init__(self, prog):
        super().__init__(prog)
        self.casts = {}
        for f in prog.fns.values():
            if f.trait_item and f.trait_item.endswith("::cast") and f.self_ty is not None:
                self.casts[prog.adt_of(f.self_ty)] = f
        self.concrete_casts = {f.id for f in self.casts.values()}

    def model(self, name, callee, args, st, t, fn):
        f = t["f"] if t else {}
        for a in f.get("a") or ():
            if self.prog.adt_of(a) in self.casts and f.get("r") in self.prog.fns and callee not in self.concrete_casts:
                st.facts[("T",)] = self.prog.adt_of(a)
        if name == "cast" and callee not in self.prog.fns or name == "cast" and not self.prog.fns[callee].blocks:
            c = self.casts.get(st.facts.get(("T",)))
            if c is not None:
                return list(self.run(c, args, st, 1))
        return None

    def std(self, name, d, args, st, t, fn, depth):
        itlike = "iter" in d or "slice" in d or "Iterator" in d
        if itlike and args and name in ("nth", "find_map", "take_while", "skip_while", "map_while", "last", "skip", "take", "count", "next_back",
                                        "find", "any", "all", "position", "filter_map") and self.concrete(self.deref(st, args[0]), st):
            if name == "filter_map":
                return super().std(name, d, args, st, t, fn, depth)
            out = []
            for s, es in self.elems(self.deref(st, args[0]), st, depth + 1):
                out += self.known(name, args, es, s, depth)
            return out
        return super().std(name, d, args, st, t, fn, depth)

    def known(self, name, args, es, st, depth):
        if name == "nth":
            n = self.deep(st, args[1])
            if n[0] == "c":
                return [(st, some(es[n[1]]) if n[1] < len(es) else NONE)]
            return [(st, ("call", "nth", ("arr", es), n))]
        if name in ("last", "next_back"):
            return [(st, some(es[-1]) if es else NONE)]
        if name == "count":
            return [(st, ("c", len(es)))]
        if name in ("skip", "take"):
            n = self.deep(st, args[1])
            return [(st, ("arr", es[n[1]:] if name == "skip" else es[:n[1]]))] if n[0] == "c" else None
        live, out = [(st, ())], []
        for i, e in enumerate(es):
            nxt = []
            for s, acc in live:
                for s2, r in self.apply(args[1], [e], s, depth):
                    if name in ("find_map", "map_while"):
                        for s3, vi, x in self.split(r, s2):
                            if name == "find_map":
                                (out if vi else nxt).append((s3, some(x) if vi else acc))
                            elif vi:
                                nxt.append((s3, acc + (x,)))
                            else:
                                out.append((s3, ("arr", acc)))
                        continue
                    for s3, b in self.truth(s2, r):
                        if name == "take_while":
                            (nxt if b else out).append((s3, acc + (e,) if b else ("arr", acc)))
                        elif name == "skip_while":
                            (nxt if b else out).append((s3, acc if b else ("arr", es[i:])))
                        elif b == (name != "all"):
                            out.append((s3, {"find": some(e), "position": some(("c", i)), "any": ("c", 1), "all": ("c", 0)}[name]))
                        else:
                            nxt.append((s3, acc))
            live = nxt
        end = {"find_map": lambda a: NONE, "find": lambda a: NONE, "position": lambda a: NONE, "any": lambda a: ("c", 0),
               "all": lambda a: ("c", 1), "take_while": lambda a: ("arr", a), "map_while": lambda a: ("arr", a),
               "skip_while": lambda a: ("arr", ())}[name]
        return out + [(s, end(a)) for s, a in live]


class Shapes:
    def __init__(self, prog):
        self.prog = prog
        self.nf = [f["n"] for f in prog.adts[N]["variants"][0]["f"]]

    def struct(self, adt, **vals):
        return ("adt", adt, 0, tuple(vals.get(f["n"], ("sym", f["n"])) for f in self.prog.adts[adt]["variants"][0]["f"]))

    def node(self, kind, children, mark):
        k = ("adt", SK, index(self.prog, SK, kind), ())
        return self.struct(N, kind=k, children=("arr", tuple(children)), id=("sym", "node %s" % (mark,)), span=("sym", "span %s" % (mark,)))

    def element(self, x):
        """x: ("tok", kind, mark), ("node", kind, children, mark) or ("trivia", kind, mark)"""
        if x[0] == "node":
            return ("adt", E, index(self.prog, E, "Node"), (self.node(x[1], [self.element(y) for y in x[2]], x[3]),))
        if x[0] == "tok":
            k = ("adt", TK, index(self.prog, TK, x[1]), ())
            return ("adt", E, index(self.prog, E, "Token"), (self.struct("ticc_syntax::SyntaxToken", kind=k, span=("sym", "span %s" % (x[2],))),))
        k = ("adt", TRIV, index(self.prog, TRIV, x[1]), ())
        return ("adt", E, index(self.prog, E, "Trivia"), (self.struct("ticc_syntax::TriviaToken", kind=k, span=("sym", "span %s" % (x[2],))),))

    def cursor(self, x):
        return self.struct(CN, node=self.node(x[1], [self.element(y) for y in x[2]], x[3]), tree=("sym", "tree"))


def marks(t):
    """what a result is about: the marks of the outermost nodes and tokens in it"""
    out = []

    def go(t):
        if t[0] == "adt" and t[1] in (N, "ticc_syntax::SyntaxToken"):
            for x in t[3]:
                if x[0] == "sym" and x[1].startswith("span "):
                    out.append(x[1][5:])
            return
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    go(x)
                else:
                    for y in x:
                        if isinstance(y, tuple):
                            go(y)
    go(t)
    return out
