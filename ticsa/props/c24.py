"""C24: exactly the unused definitions are reported as unused."""
from ..mir import Anchor
from ..world import World
from . import c08, c19
from .c04 import terms
from .c09 import K as K9, UNIT

RULE = ("on every path of the lint over a generic item, reference and definition: the set of used symbols gets the symbol of each "
        "reference, of each type variable, of each exported definition and the type of each used constructor, and nothing else, "
        "before it is asked; a definition is reported, at its extent, as a warning that names it, exactly when its symbol is not in "
        "the set, it is not a module and its name does not begin with an underscore")
ASSUMPTIONS = ["one generic item, reference and definition stand for all (the lint only combines them through the set)"]
DEF = ("w", "items", "*", "defs", "*")


def run(prog, rep):
    k9 = K9(prog)
    rd = c08.raw(prog)
    own = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and not f.derived]
    lint = c08.outermost(k9, [f for f in own if f.nargs == 1 and prog.adt_of(f.locals[1]) == UNIT and
                              prog.tstr(f.locals[0]).startswith("alloc::vec::Vec<" + rd)])
    if len(lint) != 1:
        raise Anchor("lints: %d" % len(lint))
    f = lint[0]
    it = World(prog, {k9.drive.id} | {x.id for x in k9.whole})
    it.loop_bound = 1
    unit = ("sym", "unit")
    ctx = Ctx(prog, k9, rep, f)
    for st, v in it.start(f, [unit]):
        v = it.deep(st, v)
        ctx.judge(it, st, v, unit)
    for n, what in (("ref", "references"), ("var", "type variables"), ("export", "exported definitions"), ("ctor", "used constructors"),
                    ("report", "reports")):
        rep.ob(n in ctx.seen, f.id + ": " + what, "are never looked at", f.loc())
    rep.floor("paths of the lint", ctx.n, 30)


class Ctx:
    def __init__(self, prog, k9, rep, f):
        self.prog, self.k9, self.rep, self.f = prog, k9, rep, f
        self.seen, self.n = set(), 0
        kd = [d for d in prog.adts if d.endswith("::ir::DefKind")]
        if len(kd) != 1:
            raise Anchor("kinds of definitions")
        self.kinds = {v["n"]: i for i, v in enumerate(prog.adts[kd[0]]["variants"])}
        self.kd = prog.adts[kd[0]]["variants"]
        vd = [d for d in prog.adts if d.endswith("::ir::Visibility")][0]
        self.vis = {v["n"]: i for i, v in enumerate(prog.adts[vd]["variants"])}

    def judge(self, it, st, v, unit):
        view = c19.View(self.prog, self.k9, st, unit, ("sym", "nopos"))
        if not any(n == "w" for n, _ in view.roots.values()) and all(n == "u" for t, (n, _) in view.roots.items() if t != ("sym", "nopos")):
            # compiled by whoever calls (C09)
            view.roots[unit] = ("w", view.roots[unit][1])
        path = view.path
        tr = st.trace
        ways = {}
        for e in tr:
            if e[0] in ("iter", "noiter"):
                p = path(e[1])
                if p:
                    ways.setdefault(p, set()).add(e[0])
        if any(len(x) > 1 for x in ways.values()):
            return
        self.n += 1
        # what is known about the definition
        kind = var = exp = None
        notkind, notvis = set(), set()
        for x, val in st.facts.items():
            if x[0] == "call" and x[1] == "discr" and len(x) == 3:
                self_p = path(x[2])
                if self_p == DEF + ("kind",):
                    if isinstance(val, int):
                        kind = val
                    else:
                        notkind |= set(val[1] if isinstance(val, tuple) else val)
                elif self_p == DEF + ("vis",):
                    exp = val == self.vis["Export"] if isinstance(val, int) else exp
            elif x[0] == "bin" and x[1] in ("Eq", "Ne") and isinstance(val, int):
                a, b = x[2], x[3]
                if b[0] not in ("c", "adt"):
                    a, b = b, a
                if a[:2] == ("call", "discr"):
                    a = a[2]
                if path(a) == DEF + ("vis",) and b[0] in ("c", "adt"):
                    same = (x[1] == "Eq") == bool(val)
                    c = b[1] if b[0] == "c" else b[2]
                    if c == self.vis["Export"]:
                        exp = same
                    elif same:
                        exp = False
            else:
                p = path(x)
                if p and p[:5] == DEF and p[-1].endswith("is_var"):
                    var = bool(val) if isinstance(val, int) else 0 in val
        sym = DEF + ("symbol",)
        first = {p for e in tr if e[0] == "iter" for p in [path(e[1])] if p}
        # the set that decides
        asks = [(i, e) for i, e in enumerate(tr) if e[0] == "ask" and path(e[2]) == sym and not self.known(st, e, "get")]
        sets = {e[1] for i, e in asks}
        ins = [(i, e) for i, e in enumerate(tr) if e[0] in ("insert", "insert?") and e[1] in sets]
        key = self.f.id
        where = self.f.loc()
        ob = self.rep.ob
        got = {}
        for i, e in ins:
            w = self.why(st, path, e[2], kind, var, exp, tr)
            ob(w is not None, key + ": used", "takes something else for used", where)
            got.setdefault(w, i)
            self.seen.add(w)
        if not asks:
            # nothing was decided: only without a definition or with a module or an exempt name
            ex = kind == self.kinds["Module"] or self.exempt(st, path, tr) is True
            ob(DEF[:4] not in {p[:4] for p in first} or DEF[:4] + ("*",) not in {p for p in first} and DEF[:4] not in first or ex, key,
               "does not decide about a definition", where)
        # what has to be in the set
        ask = max((i for i, e in asks), default=None)
        refs = ("w", "items", "*", "refs")
        if ask is not None:
            # a first look at the items that found none contradicts the definition asked for
            if refs in first:
                ob(got.get("ref", ask) < ask, key + ": references", "do not make a definition used", where)
            if refs not in ways:
                ob(False, key + ": references", "are not looked at", where)
            ist = self.kinds["Type"]
            if kind == ist:
                ob(var is not None, key + ": type variables", "are not told from types", where)
                if var:
                    ob(min(got.get("var", ask), got.get("export", ask)) < ask, key + ": type variables", "are not exempt", where)
            else:
                ob(kind is not None or ist in notkind, key + ": type variables", "are not told from types", where)
            ob(exp is not None or "export" in got or "var" in got, key + ": exported definitions", "are not told from others", where)
            if exp:
                ob(got.get("export", ask) < ask, key + ": exported definitions", "are not exempt", where)
            self.ctor(st, path, tr, kind, notkind, sets, ask, got, asks)
        # the report
        reps = []
        for s, es in it.elems(v, st.copy(), 1):
            for e in es:
                reps.append(it.deep(s, e))
        ex = self.exempt(st, path, tr)
        used = [st.facts.get(a) for i, e in asks for a in [("call", "contains", e[1], e[2]), ("call", "get", e[1], e[2])] if a in st.facts]
        for e in reps:
            self.seen.add("report")
            ob(self.is_report(path, e), key + ": report", "is about something else, or is no warning", where)
            ob(0 in used, key + ": report", "is made without asking if it is used" if not used else "is made for a used definition", where)
            ob(kind != self.kinds["Module"] and (kind is not None or self.kinds["Module"] in notkind or
               self.not_module(st, path)), key + ": report", "is made for a module", where)
            ob(ex is False, key + ": report", "is made for a name that begins with an underscore", where)
        if used and used[-1] == 0 and not reps:
            ob(kind == self.kinds["Module"] or ex is True, key + ": report", "is missing for a definition that is not used", where)
        ob(len(reps) <= 1, key + ": report", "is made twice", where)

    def known(self, st, e, name):
        return False

    def not_module(self, st, path):
        m = self.kinds["Module"]
        for x, val in st.facts.items():
            if x[0] == "bin" and x[1] in ("Eq", "Ne") and isinstance(val, int):
                a, b = (x[2], x[3]) if x[3][0] == "c" else (x[3], x[2])
                if a[:2] == ("call", "discr") and path(a[2]) == DEF + ("kind",) and b == ("c", m):
                    return (x[1] == "Eq") != bool(val)
        return False

    def why(self, st, path, t, kind, var, exp, tr):
        p = path(t)
        if p == ("w", "items", "*", "refs", "*", "symbol"):
            return "ref"
        if p == DEF + ("symbol",):
            if kind == self.kinds["Type"] and var:
                return "export" if exp else "var"
            return "export" if exp else None
        if p and p[:5] == DEF and p[-1] == "Ctor.type_symbol":
            # directly, for a constructor that is used
            for x, val in st.facts.items():
                if x[0] == "call" and x[1] in ("contains", "get") and path(x[3]) == DEF + ("symbol",) and val == 1:
                    return "ctor"
            return None
        # through the map from constructors to types
        while t[0] == "proj":
            t = t[1]
        if t[0] == "call" and t[1] in ("get", "remove") and t[3][0] == "elem" and st.facts.get(("call", "discr", t)) == 1:
            return "ctor"
        return None

    def ctor(self, st, path, tr, kind, notkind, sets, ask, got, asks):
        """a used constructor makes its type used"""
        key = self.f.id + ": used constructors"
        where = self.f.loc()
        c = self.kinds["Ctor"]
        self.rep.ob(kind is not None or c in notkind, key, "are not told from other definitions", where)
        puts = [e for e in tr if e[0] in ("insert", "insert?") and e[1] not in sets and len(e) == 4 and path(e[2]) == DEF + ("symbol",)]
        for e in puts:
            p = path(e[3])
            self.rep.ob(kind == c and p is not None and p[:5] == DEF and p[-1] == "Ctor.type_symbol", key, "do not stand for their type", where)
        maps = {e[1] for e in puts}
        if maps:
            self.maps = getattr(self, "maps", set()) | maps
        looked = [(i, e) for i, e in enumerate(tr) if e[0] == "iter" and any(y in sets for y in terms(e[1])) and i < ask]
        if kind == c:
            direct = [e for e in tr if e[0] == "insert" and e[1] in sets and (path(e[2]) or ())[-1:] == ("Ctor.type_symbol",)]
            if not direct:
                dec = any(x[0] == "call" and x[1] == "contains" and path(x[3]) == DEF + ("symbol",) and i != ask for i, e in asks
                          for x in [("call", "contains", e[1], e[2])])
                self.rep.ob(bool(puts) or dec, key, "do not stand for their type", where)
        if puts:
            self.rep.ob(any(e[0] in ("iter", "noiter") and any(y in sets for y in terms(e[1])) for e in tr[:ask]), key,
                        "are not followed to their types", where)
        for i, e in looked:
            g = {x[2]: v for x, v in st.facts.items() if x[:2] == ("call", "discr") and x[2][0] == "call" and x[2][1] in ("get", "remove") and
                 x[2][3][0] == "elem" and any(y in sets for y in terms(x[2][3]))}
            hit = [x for x in g if g[x] == 1]
            self.rep.ob(bool(g), key, "are not followed to their types", where)
            if hit:
                self.rep.ob(got.get("ctor", ask) < ask, key, "do not make their type used", where)

    def exempt(self, st, path, tr):
        """the name begins with an underscore: True, False or None"""
        def name(t):
            return any(y[0] == "call" and y[1] == "index" and path(y[2]) == ("w", "src") and
                       all((path(z) or ())[:6] == DEF + ("span",) for z in ranges(y[3])) for y in terms(t))
        for x, val in st.facts.items():
            if not isinstance(val, int):
                continue
            if x[0] == "bin" and x[1] in ("Eq", "Ne") and ("c", 95) in x[2:] and any(name(y) for y in x[2:]):
                if any(y[0] == "elem" and y[1][:2] == ("call", "chars") for z in x[2:] for y in terms(z)):
                    return (x[1] == "Eq") == bool(val)
            if x[0] == "call" and x[1] == "starts_with" and name(x[2]) and x[3] in (("c", 95), ("s", "_")):
                return bool(val)
        if any(e[0] == "noiter" and e[1][:2] == ("call", "chars") and name(e[1]) for e in tr):
            return False
        return None

    def is_report(self, path, e):
        if e[0] != "adt" or not e[1].endswith("RawDiagnostic"):
            return False
        fs = [x["n"] for x in self.prog.adts[e[1]]["variants"][0]["f"]]
        span, sev, msg = (e[3][fs.index(n)] for n in ("span", "severity", "message"))
        warn = [i for i, v in enumerate(self.prog.adts["ticc::Severity"]["variants"]) if v["n"] == "Warning"][0]
        return path(span) == DEF + ("span",) and sev[0] == "adt" and sev[2] == warn and \
            any(path(y) == DEF + ("symbol",) for y in terms(msg))


def ranges(t):
    if t[0] == "adt" and t[1].endswith("Range"):
        out = []
        for x in t[3]:
            while x[0] == "un" and x[1].startswith("as "):
                x = x[2]
            out.append(x)
        return out
    return [t]
