"""C14: a module exports exactly its exported definitions, each in its namespaces."""
from ..mir import Anchor
from ..front import show, RESULT
from ..world import World, path, ismap
from .c04 import terms

RULE = ("on every path through completing a unit, with helpers entered, the entries made in the export table for the generic definition "
        "are exactly its name in the namespaces of its kind if it is exported and none otherwise, and the type table gets every "
        "definition and those of imported modules; looking up an export returns the entry with that name and namespace or an error; "
        "the table of definitions later items are checked against gets every definition of an item and of the modules it imports")
ASSUMPTIONS = ["a name's text is the source text of its span"]

DEF = "ticc::compiler::ir::Def"
KIND = "ticc::compiler::ir::DefKind"
VIS = "ticc::compiler::ir::Visibility"
ITEM = "ticc::compiler::ir::Item"
UNIT = "ticc::CompilationUnit"
WANT = {"Value": {"Value"}, "Ctor": {"Value", "Pattern"}, "Type": {"Type"}, "Module": {"Module"}}


class K:
    def __init__(self, prog):
        self.prog = prog
        own = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and not f.derived]
        # the finished unit: the struct that owns a unit and two tables of definitions
        self.props = self.pick("finished unit", [d for d, a in prog.adts.items() if d.startswith("ticc::") and a["kind"] == "struct" and
                                                 any(prog.tstr(f["t"]) == UNIT for f in a["variants"][0]["f"]) and
                                                 any(self.table(f["t"]) for f in a["variants"][0]["f"])])
        fs = prog.adts[self.props]["variants"][0]["f"]
        self.exports = self.types = None
        for i, f in enumerate(fs):
            t = self.table(f["t"])
            if t and "Symbol" in t:
                self.types = i
            elif t:
                self.exports = i
                self.key = t
        if self.exports is None or self.types is None:
            raise Anchor("tables of a finished unit")
        fin = [f for f in own if f.nargs == 1 and prog.tstr(f.locals[1]) == UNIT and self.holds(f.locals[0])]
        self.finish = self.pick("completion of a unit", fin)
        self.find = self.pick("lookup of an export", [f for f in own if f.nargs == 3 and prog.tstr(f.locals[0]).startswith(RESULT) and
                                                      DEF in prog.tstr(f.locals[0])])
        self.compile = [f.id for f in own if f.nargs in (1, 2) and prog.tstr(f.locals[1]) == "&mut " + UNIT and
                        prog.tstr(f.locals[0]) == "()"]
        self.adders = [f for f in own if f.nargs == 2 and prog.tstr(f.locals[1]).startswith("&mut") and
                       prog.adt_of(f.locals[2]) == ITEM and self.defmap(prog.adt_of(f.locals[1]))]

    def pick(self, what, xs):
        if len(xs) != 1:
            raise Anchor("%s, found %d" % (what, len(xs)))
        return xs[0]

    def table(self, ty):
        """key type of a map to definitions"""
        t = self.prog.types[ty]
        if t["k"] == "adt" and ismap(t["d"]) and len(t["a"]) > 1 and self.prog.tstr(t["a"][1]) == DEF:
            return self.prog.tstr(t["a"][0])
        return None

    def holds(self, ty):
        d = self.prog.adt_of(ty)
        a = self.prog.adts.get(d)
        return d == self.props or bool(a and a["kind"] == "struct" and any(self.props in self.prog.tstr(f["t"]) for f in
                                                                          a["variants"][0]["f"]))

    def defmap(self, d):
        a = self.prog.adts.get(d)
        return bool(a and a["kind"] == "struct" and any(self.table(f["t"]) for f in a["variants"][0]["f"]))


def enum(prog, d):
    return [v["n"] for v in prog.adts[d]["variants"]]


def entry(prog, k, key, name):
    """(namespace, paths used by the text) of an export table key"""
    a = prog.adts[k.key]
    if key[0] != "adt" or key[1] != k.key:
        return None, None
    ns = text = None
    for f, x in zip(a["variants"][0]["f"], key[3]):
        d = prog.adt_of(f["t"])
        if d in prog.adts and prog.adts[d]["kind"] == "enum":
            ns = prog.adts[d]["variants"][x[2]]["n"] if x[0] == "adt" else x
        else:
            text = x
    return ns, text


def props_of(k, r):
    for x in terms(r):
        if x[0] == "adt" and x[1] == k.props:
            return x
    return None


def span_text(prog, t, roots, pre):
    """the text is the slice of the unit's source at the definition's span"""
    if t is None:
        return False
    if t[0] == "call" and t[1] in ("index", "get", "to_owned", "to_string", "from", "into", "clone") and len(t) == 3:
        return span_text(prog, t[2], roots, pre)
    if t[0] == "call" and t[1] in ("index",) and len(t) == 4 and t[3][0] == "adt" and len(t[3][3]) == 2:
        def ends(x):
            return {path(prog, y, roots) for y in terms(x) if y[0] == "proj"}
        a, b = (ends(x) for x in t[3][3])
        src = path(prog, t[2], roots)
        sp = pre + ("span",)

        def under(xs, n):
            ps = [p for p in xs if p and p[:len(sp)] == sp and len(p) > len(sp)]
            return bool(ps) and all(p[len(sp)] == n for p in ps) and all(p is None or p == sp[:len(p)] or p[:len(sp)] == sp for p in xs)
        sd = [prog.adt_of(f["t"]) for f in prog.adts[DEF]["variants"][0]["f"] if f["n"] == "span"][0]
        fs = [f["n"] for f in prog.adts[sd]["variants"][0]["f"]]
        return src == (pre[0], "src") and under(a, fs[0]) and under(b, fs[1])
    return False


def judge_finish(prog, rep, k):
    f = k.finish
    where = f.loc()
    n = 0
    for vi, vis in enumerate(enum(prog, VIS)):
        for ki, kind in enumerate(enum(prog, KIND)):
            it = World(prog, k.compile)
            it.pin(VIS, vi)
            it.pin(KIND, ki)
            outs = it.start(f, [("sym", "u")])
            rep.ob(bool(outs), f.id, "does not return", where)
            for st, r in outs:
                r = it.deep(st, r)
                p = props_of(k, r)
                comp = [e for e in st.trace if e[0] == "do" and e[1] in k.compile]
                if p is None or len(comp) != 1:
                    rep.ob(False, f.id, "is not compiled to its end once before it is finished", where)
                    continue
                unit = ("after", st.trace.index(comp[0]), comp[0][1], ("sym", "u"))
                roots = {unit: ("u", f.locals[1])}
                ui = [i for i, x in enumerate(prog.adts[k.props]["variants"][0]["f"]) if prog.tstr(x["t"]) == UNIT][0]
                rep.ob(p[3][ui] == unit, f.id + ": unit", "is not the compiled one", where)
                d = ("u", "items", "*", "defs", "*")
                for which in (k.exports, k.types):
                    m = p[3][which]
                    evs = [e for e in st.trace if e[0] in ("insert", "insert?", "remove") and e[1] == m]
                    its = [path(prog, e[1], roots) for e in st.trace if e[0] == "iter"]
                    n += 1
                    if which == k.exports:
                        nested = seen_by(st, m, roots, prog, d[:-1])
                        got = []
                        good = True
                        for e in evs:
                            ns, text = entry(prog, k, e[2], None)
                            got.append(ns)
                            good &= e[0] == "insert" and path(prog, e[3], roots) == d and span_text(prog, text, roots, d)
                        want = WANT[kind] if vis == "Export" and nested else set()
                        key = "%s: exported %s" % (f.id, kind) if vis == "Export" else "%s: %s %s" % (f.id, vis, kind)
                        rep.ob(good, key, "is entered under something other than its name, or as something else", where)
                        rep.ob(set(map(str, got)) == want and len(got) == len(want), key,
                               "is exported in the namespaces %s instead of %s" % (sorted(map(str, got)), sorted(want)), where)
                    else:
                        nested = seen_by(st, m, roots, prog, d[:-1])
                        key = "%s: definitions of kind %s" % (f.id, kind)
                        if kind == "Module":
                            good = all(len(e) == 4 and path(prog, e[2], roots) is not None and
                                       path(prog, e[2], roots)[:len(d)] == d and "types" in path(prog, e[2], roots) or
                                       len(e) == 4 and path(prog, e[3], roots) == d for e in evs)
                            rep.ob(good, key, "something else is entered", where)
                            if nested:
                                lists = [x for x in its if x and x[:len(d)] == d and x[-1] == "types"]
                                none = [e for e in st.trace if e[0] == "noiter" and "types" in (path(prog, e[1], roots) or ())]
                                rep.ob(bool(lists) and bool(evs) or bool(none), key, "the definitions of the module are not entered", where)
                        else:
                            ok = len(evs) == 1 and evs[0][0] == "insert" and path(prog, evs[0][2], roots) == d + ("symbol",) and \
                                path(prog, evs[0][3], roots) == d if nested else not evs
                            rep.ob(ok, key, "are not entered under their symbol", where)
    return n


def seen_by(st, m, roots, prog, lst):
    """the loop that fills map m visits the definitions on this path: the last visit before the next map or the end"""
    maps = [("map", e[1]) for e in st.trace if e[0] == "newmap"]
    cur = None
    seen = {x: False for x in maps}
    for e in st.trace:
        if e[0] == "newmap":
            cur = ("map", e[1])
        elif e[0] == "iter" and path(prog, e[1], roots) == lst and cur is not None:
            seen[cur] = True
    return seen.get(m, False)


def judge_find(prog, rep, k):
    f = k.find
    where = f.loc()
    it = World(prog)
    args = [("sym", "p"), ("sym", "ns"), ("sym", "name")]
    ks = [prog.adt_of(x) for x in f.locals[1:4]]
    outs = it.start(f, args)
    roots = {("sym", "p"): ("p", f.locals[1])}
    ex = prog.adts[k.props]["variants"][0]["f"][k.exports]["n"]
    own = [i for i, d in enumerate(ks) if d in prog.adts and prog.adts[d]["kind"] == "enum"]
    txt = [i for i, x in enumerate(f.locals[1:4]) if prog.tstr(x).endswith("str")]
    if len(own) != 1 or len(txt) != 1:
        raise Anchor("parameters of the lookup of an export")
    rep.ob(bool(outs), f.id, "does not return", where)
    ok_paths = 0
    for st, r in outs:
        r = it.deep(st, r)
        gets = {}
        for x, v in st.facts.items():
            if x[0] == "call" and x[1] == "discr" and x[2][:2] == ("call", "get") or x[:2] == ("call", "contains"):
                g = x[2] if x[1] == "discr" else x
                if path(prog, g[2], roots) != ("p", ex):
                    rep.ob(False, f.id, "looks in another table", where)
                    continue
                ns, text = entry(prog, k, g[3], None)
                rep.ob(text == args[txt[0]], f.id, "looks for another name", where)
                gets[ns] = v
        want = gets.get(args[own[0]])
        if r[0] == "adt" and r[1] == RESULT and r[2] == 0:
            ok_paths += 1
            t = r[3][0]
            while t[0] == "proj":
                t = t[1]
            good = t[:2] == ("call", "get") and entry(prog, k, t[3], None)[0] == args[own[0]] and want == 1
            rep.ob(good, f.id + ": found", "returns another definition than the one exported in the namespace", where)
        else:
            rep.ob(r[0] == "adt" and r[1] == RESULT and want == 0, f.id + ": not found", "reports an exported name as missing", where)
            if r[0] == "adt" and r[3][0][0] == "adt":
                wrong = bool(r[3][0][3])
                others = {ns for ns, v in gets.items() if isinstance(ns, str) and v == 1}
                miss = {ns for ns, v in gets.items() if isinstance(ns, str) and v == 0}
                rep.ob(bool(others) if wrong else len(miss) == len(enum(prog, ks[own[0]])), f.id + ": kind of error",
                       "tells a name exported elsewhere from one not exported wrongly", where)
    rep.ob(ok_paths > 0, f.id, "never finds anything", where)


def judge_adder(prog, rep, k):
    n = 0
    for f in k.adders:
        where = f.loc()
        for ki, kind in enumerate(enum(prog, KIND)):
            n += 1
            it = World(prog)
            it.pin(KIND, ki)
            outs = it.start(f, [("sym", "d"), ("sym", "i")])
            roots = {("sym", "d"): ("d", f.locals[1]), ("sym", "i"): ("i", f.locals[2])}
            d = ("i", "defs", "*")
            key = "%s: %s" % (f.id, kind)
            for st, _ in outs:
                its = [path(prog, e[1], roots) for e in st.trace if e[0] == "iter"]
                evs = [e for e in st.trace if e[0] in ("insert", "insert?")]
                own = [e for e in evs if path(prog, e[3], roots) == d]
                if d[:-1] in its:
                    rep.ob(len(own) == 1 and own[0][0] == "insert" and path(prog, own[0][2], roots) == d + ("symbol",), key,
                           "a definition is not entered under its symbol", where)
                for e in evs:
                    p, q = path(prog, e[2], roots), path(prog, e[3], roots)
                    mod = kind == "Module" and p and p[:len(d)] == d and p[-3:] == ("types", "*", "0") and q == p[:-1] + ("1",)
                    rep.ob(q == d or bool(mod), key, "something else is entered", where)
                tys = [p for p in its if p and p[-1] == "types"]
                if kind == "Module" and tys:
                    had = any(x[0] == "call" and x[1] in ("contains", "get") and v == 1 and (path(prog, x[3], roots) or ())[-3:] ==
                              ("types", "*", "0") for x0, v in st.facts.items() for x in (x0, x0[2]) if isinstance(x, tuple) and x[0] == "call" and len(x) > 3)
                    rep.ob(had or any((path(prog, e[2], roots) or ())[-3:] == ("types", "*", "0") for e in evs), key,
                           "the definitions of the module are not entered", where)
            if kind == "Module":
                rep.ob(any(e[0] == "iter" and (path(prog, e[1], roots) or ("",))[-1] == "types" for st, _ in outs for e in st.trace), key,
                       "the definitions of the module are not entered", where)
    return n


def run(prog, rep):
    k = K(prog)
    rep.floor("tables filled", judge_finish(prog, rep, k), 100)
    judge_find(prog, rep, k)
    rep.floor("kinds of definitions entered", judge_adder(prog, rep, k), 4)
