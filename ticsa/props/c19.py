"""C19: go to definition, find references and hover answer for the name under the cursor."""
from ..mir import Anchor
from ..front import show, OPTION, NONE
from ..world import World, path
from .c04 import terms
from .c09 import K as K9, ITEM, UNIT, POS

RULE = ("on every path of the queries, with helpers entered: a reference whose span holds the position, else a named definition "
        "whose span holds it, decides the symbol; the answer is the span of that symbol's definition, respectively the spans of "
        "exactly the references to that symbol (in the definition's own item for local definitions, else in all items of the "
        "unit compiled to its end); hover gives the span of the name and the type of that definition, and without a name the "
        "type recorded for the innermost expression that holds the position")
ASSUMPTIONS = ["descendants() of the syntax tree yields a parent before its children"]

SPAN = "ticc_syntax::pos::Span"
PICK = ("last", "find", "find_map", "nth", "next", "first", "max_by_key", "min_by_key", "fold", "reduce")
FLIP = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
NEG = {"Lt": "Ge", "Gt": "Le", "Le": "Gt", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}


class View:
    """facts of a path by the names of what they are about. u: the unit in any version, w: compiled to its end"""

    def __init__(self, prog, k, st, unit, pos, also=()):
        self.prog, self.k, self.st = prog, k, st
        uid = [i for i, t in enumerate(prog.types) if t["k"] == "adt" and t["d"] == UNIT][0]
        pid = [i for i, t in enumerate(prog.types) if t["k"] == "adt" and t["d"] == POS][0]
        roots = {unit: ("u", uid), pos: ("pos", pid)}
        whole = {f.id for f in k.whole}
        every = set(whole) | {k.drive.id} | set(also)
        seen = set()
        for x in list(st.facts) + [y for e in st.trace for y in e[1:] if isinstance(y, tuple)]:
            self.versions(x, roots, unit, every, whole, uid, seen)
        self.roots = roots

    def versions(self, x, roots, unit, every, whole, uid, seen):
        todo = [x]
        while todo:
            y = todo.pop()
            if not isinstance(y, tuple) or not y or y in seen:
                continue
            seen.add(y)
            if y[0] == "after" and len(y) == 4 and y[2] in every:
                z, full = y, False
                while z[0] == "after" and z[2] in every:
                    full |= z[2] in whole
                    z = z[3]
                if z == unit:
                    roots[y] = ("w" if full else "u", uid)
            todo += [z for z in y if isinstance(z, tuple)]

    def path(self, t):
        while t[0] == "un" and t[1].startswith("as ") or t[0] == "call" and t[1] in ("copied", "cloned", "clone") and len(t) == 3:
            t = t[2]
        p = path(self.prog, t, self.roots)
        while p and len(p) > 1 and (p[-1] == "offset" or p[-1] == "0" and p[-2] == "symbol"):
            p = p[:-1]
        return p

    def rel(self, p, want=None):
        """how what is at p stands to the position: one of Lt Le Gt Ge, or None"""
        for x, v in self.st.facts.items():
            if x[0] != "bin" or x[1] not in FLIP or not isinstance(v, int):
                continue
            a, b = self.path(x[2]), self.path(x[3])
            op = x[1]
            if a == ("pos",):
                a, b, op = b, a, FLIP[op]
            if b == ("pos",) and a == p:
                return op if v else NEG[op]
        return None

    def holds(self, p, loose=False):
        """the span at p holds the position; None: not decided; 'odd': decided by something else"""
        s, e = self.rel(p + ("start",)), self.rel(p + ("end",))
        if s == "Gt" or e == "Lt" or loose and (e == "Le" or s == "Ge"):
            return False
        if s == "Le" and (e == "Ge" or loose and e == "Gt"):
            return True
        if s is None and e is None or s in (None, "Le") and e in (None, "Ge") or loose and e == "Gt" and s is None:
            return None
        return "odd"

    def same(self, p, q):
        """symbols at p and q are equal"""
        for x, v in self.st.facts.items():
            if x[0] == "bin" and x[1] in ("Eq", "Ne") and isinstance(v, int) and {self.path(x[2]), self.path(x[3])} == {p, q}:
                return (x[1] == "Eq") == bool(v)
        return True if p == q else None

    def flag(self, p):
        for x, v in self.st.facts.items():
            if self.path(x) == p and isinstance(v, int):
                return bool(v)
        return None

    def variant(self, p, adt):
        """possible variants at p"""
        vs = self.prog.adts[adt]["variants"]
        for x, v in self.st.facts.items():
            if x[:2] == ("call", "discr") and self.path(x[2]) == p:
                return {vs[v]["n"]} if isinstance(v, int) else {a["n"] for i, a in enumerate(vs) if i not in v}
            if x[0] == "bin" and x[1] in ("Eq", "Ne") and isinstance(v, int):
                a, b = x[2], x[3]
                if a[0] != "call":
                    a, b = b, a
                if a[:2] == ("call", "discr") and self.path(a[2]) == p and b[0] == "c":
                    if (x[1] == "Eq") == bool(v):
                        return {vs[b[1]]["n"]}
                    return {a["n"] for i, a in enumerate(vs) if i != b[1]}
        return {a["n"] for a in vs}

    def looked(self, p):
        return any(e[0] == "iter" and self.path(e[1]) == p for e in self.st.trace)

    def empty(self, p):
        return any(e[0] == "noiter" and self.path(e[1]) == p for e in self.st.trace)

    def among(self, p):
        """a span of the elements of p (items.*.refs) holds the position: True, False, None (not looked), 'odd'"""
        item = p[:-1]
        if self.empty(item[:-1]) or self.empty(p):
            return False
        if not self.looked(item[:-1]):
            return None
        gate = self.holds(item + ("span",), True)
        if gate is False:
            return False
        if not self.looked(p):
            return None if gate is None or gate is True else gate
        h = self.holds(p + ("*", "span"))
        return h if gate in (None, True) else gate

    def name(self):
        """('ref'/'def'/None/'?', path)"""
        for u in ("u", "w"):
            if not self.looked((u, "items")) and not self.empty((u, "items")):
                continue
            r = self.among((u, "items", "*", "refs"))
            if r is True:
                return "ref", (u, "items", "*", "refs", "*")
            if r is not False:
                return ("?", "the references") if r is None else ("?", "exactly the extent of a reference")
            d = self.among((u, "items", "*", "defs"))
            dp = (u, "items", "*", "defs", "*")
            named = self.flag(dp + ("has_name",))
            if d is not False and named is False:
                return None, None
            if d is True:
                if named is None:
                    return "?", "whether a definition has a name"
                return "def", dp
            if d is not False:
                return ("?", "the definitions") if d is None else ("?", "exactly the extent of a definition")
            return None, None
        return "?", "the names"

    def definition(self, sym):
        """the definition of the symbol at sym: path, None (there is none), '?'"""
        for u in ("u", "w"):
            p = (u, "items", "*", "defs", "*")
            s = self.same(p + ("symbol",), sym)
            if s is True:
                return p
            if s is False:
                return None if sym != p + ("symbol",) else "skip"
        for u in ("u", "w"):
            if self.empty((u, "items")) or self.empty((u, "items", "*", "defs")):
                return None
        return "?"


def entry(prog, out, extra=2):
    fs = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and f.nargs == 2 and prog.adt_of(f.locals[1]) == UNIT and
          prog.tstr(f.locals[1]).startswith("&mut") and prog.adt_of(f.locals[2]) == POS and prog.tstr(f.locals[0]) == out]
    # the outermost
    inner = {y for f in fs for y in prog.reachable([f.id]) if y != f.id}
    fs = [f for f in fs if f.id not in inner]
    if len(fs) != 1:
        raise Anchor("query giving " + out)
    return fs[0]


def some(v):
    return v[3][0] if v[0] == "adt" and v[1] == OPTION and v[2] == 1 else None


def span_of(view, t):
    if t[0] == "adt" and len(t[3]) == 2:
        a, b = (view.path(x) for x in t[3])
        if a and b and a[:-1] == b[:-1] and (a[-1], b[-1]) == ("start", "end"):
            return a[:-1]
    return view.path(t)


def paths(prog, k, f, closed=()):
    it = World(prog, {k.drive.id} | {x.id for x in k.whole} | set(closed))
    unit, pos = ("sym", "unit"), ("sym", "pos")
    for st, v in it.start(f, [unit, pos]):
        view = View(prog, k, st, unit, pos)
        # an empty collection is not run through later
        if {view.path(e[1]) for e in st.trace if e[0] == "iter"} & {view.path(e[1]) for e in st.trace if e[0] == "noiter"} - {None}:
            continue
        yield view, it.deep(st, v), it


def judge_definition(prog, rep, k, f):
    n = 0
    kinds = set()
    for view, v, _ in paths(prog, k, f):
        n += 1
        what, p = view.name()
        got = some(v)
        if what == "?":
            rep.ob(False, f.id + ": name", "is decided without looking at " + p, f.loc())
            continue
        kinds.add(what)
        if what is None:
            rep.ob(v == NONE, f.id, "answers where there is no name", f.loc())
            continue
        d = view.definition(p + ("symbol",))
        if d == "skip":
            # the definition itself is still to come
            continue
        if d == "?":
            rep.ob(False, f.id, "does not look for the definition of the name", f.loc())
        elif d is None:
            rep.ob(v == NONE, f.id, "answers with something else than the definition of the name", f.loc())
        else:
            rep.ob(got is not None and span_of(view, got) == d + ("span",), f.id,
                   "does not answer with the definition of the %s" % ("name" if what == "ref" else "definition itself"), f.loc())
    for w in ("ref", "def", None):
        rep.ob(w in kinds, f.id + ": " + str(w), "never happens", f.loc())
    return n


def judge_references(prog, rep, k, f):
    n = 0
    kinds = set()
    vis = [d for d in prog.adts if d.endswith("ir::Visibility")][0]
    for view, v, it in paths(prog, k, f):
        n += 1
        what, p = view.name()
        got = some(v)
        if what == "?":
            rep.ob(False, f.id + ": name", "is decided without looking at " + p, f.loc())
            continue
        kinds.add(what)
        if what is None:
            rep.ob(v == NONE, f.id, "answers where there is no name", f.loc())
            continue
        sym = p + ("symbol",)
        d = view.definition(sym)
        if d == "skip":
            # the definition itself is still to come
            continue
        if d == "?":
            rep.ob(False, f.id, "does not look for the definition of the name", f.loc())
            continue
        if d is None:
            rep.ob(v == NONE or got is not None, f.id, "answers for a name of another module", f.loc())
            if got is None:
                continue
            local = False
        else:
            vs = view.variant(d + ("vis",), vis)
            if "Local" in vs and len(vs) > 1:
                local = None
            else:
                local = vs == {"Local"}
            if got is None:
                rep.ob(False, f.id, "gives no answer for a name defined here", f.loc())
                continue
        spans, base = [], got
        while base[:2] == ("call", "push"):
            spans.append(base[3])
            base = base[2]
        if base[0] == "arr":
            spans, base = spans + list(base[1]), ("vecnew",)
        rep.ob(base[0] == "vecnew", f.id, "does not start with no references", f.loc())
        key = f.id + (": local" if local else ": visible" if local is False else ": any")
        # where the references were looked for
        places = {e for u in ("u", "w") for e in [(u, "items", "*", "refs")] if view.looked(e)}
        wide = view.looked(("w", "items")) or view.empty(("w", "items"))
        if not local:
            rep.ob(wide, key, "is answered without the rest of the unit", f.loc())
        u = "w" if wide else "u"
        r = (u, "items", "*", "refs", "*")
        hit = view.same(r + ("symbol",), sym)
        if hit is None:
            none = view.empty((u, "items")) or view.empty((u, "items", "*", "refs")) or any(
                view.empty((x, "items", "*", "refs")) for x in ("u", "w") if local)
            rep.ob(none and not spans, key, "does not look at all references", f.loc())
        elif hit:
            looked = view.looked(r[:-1])
            if not looked:
                rep.ob(view.empty(r[:-1]) or view.empty(r[:2]), key, "does not look at all references", f.loc())
            rep.ob(not looked or [span_of(view, s) for s in spans] == [r + ("span",)], key, "does not give a reference to the name", f.loc())
        else:
            rep.ob(not spans, key, "gives a reference to another name", f.loc())
        kinds.add("found" if spans else "empty")
        kinds.add(key)
    for w in ("ref", "def", None, "found", "empty"):
        rep.ob(w in kinds, f.id + ": " + str(w), "never happens", f.loc())
    return n


def judge_hover(prog, rep, k, f):
    tys = {g.id for g in prog.fns.values() if g.crate == "ticc" and g.kind == "fn" and not g.derived and g.id in prog.reachable([f.id]) and
           any(prog.tstr(x) in ("&ticc::compiler::ir::Type",) for x in g.locals[1:g.nargs + 1]) and
           any(prog.tstr(x) == "&mut alloc::string::String" for x in g.locals[1:g.nargs + 1])}
    inner = {y for x in tys for y in prog.reachable([x]) if y != x}
    closed = tys - inner or tys
    n = 0
    kinds = set()
    kind_adt = "ticc::compiler::ir::DefKind"
    for view, v, it in paths(prog, k, f, closed):
        n += 1
        what, p = view.name()
        got = some(v)
        if what == "?":
            rep.ob(False, f.id + ": name", "is decided without looking at " + p, f.loc())
            continue
        printed = [a for e in view.st.trace if e[0] == "do" and e[1] in closed for a in e[2]]
        d = view.definition(p + ("symbol",)) if what else None
        if d == "skip":
            # the definition itself is still to come
            continue
        if d == "?":
            rep.ob(False, f.id, "does not look for the definition of the name", f.loc())
            continue
        expr = False
        if what is not None and d is not None:
            kinds.add(what)
            vs = view.variant(d + ("kind",), kind_adt)
            for vn in vs:
                key = "%s: %s" % (f.id, vn)
                if vn == "Module":
                    expr = expr or got is not None
                    continue
                if got is None:
                    rep.ob(False, key, "has no answer", f.loc())
                    continue
                span = [x for x in got[3] if span_of(view, x)]
                rep.ob(got[0] == "adt" and any(span_of(view, x) == p + ("span",) for x in got[3]), key, "is not shown at the name", f.loc())
                field = {"Value": "Value.ty", "Ctor": "Ctor.fn_ty"}.get(vn)
                if field:
                    rep.ob([view.path(a) for a in printed if (view.path(a) or ("",))[-1].split(".")[0] in ("Value", "Ctor", "Type")] ==
                           [d + ("kind", field)], key, "is not shown with its own type", f.loc())
                else:
                    rep.ob(not any((view.path(a) or ("",))[-1] in ("Value.ty", "Ctor.fn_ty") for a in printed), key,
                           "is shown with another type", f.loc())
                kinds.add(vn)
            if vs != {"Module"}:
                continue
        if got is None:
            continue
        # the expression at the position
        kinds.add("expression")
        key = f.id + ": expression"
        at = [a for a in printed if a[0] == "at" or a[0] == "ok" and a[1][:2] == ("call", "get") or
              a[0] == "proj" and a[1][0] == "proj" and a[1][1][:2] == ("call", "get")]
        rep.ob(len(at) == 1 and got[0] == "adt", key, "is not shown with the type recorded for it", f.loc())
        if len(at) != 1:
            continue
        at = at[0]
        while at[0] != "at" and at[:2] != ("call", "get"):
            at = at[1]
        table, node = (at[1], at[2]) if at[0] == "at" else (at[2], at[3])
        found = [y for y in terms(node) if y[0] == "call" and y[1] in PICK]
        one = found or [y for y in terms(node) if y[0] == "elem" and view.path(y) != ("u", "items", "*")]
        rep.ob(bool(one) and (not found or any(y == found[0] for y in terms(table))) or view.path(table) == ("u", "items", "*", "types"),
               key, "is not shown with the type recorded for it", f.loc())
        if not one:
            continue
        rep.ob(any(any(y == one[0] for y in terms(x)) for x in got[3]), key, "is not shown at the expression", f.loc())
        if found:
            rep.ob(found[0][1] == "last", key, "is not the innermost one", f.loc())
            conds = selected(it, view, found[0][2])
        else:
            seq = one[0][1]
            rep.ob(("full", seq) in view.st.trace or any(y[:2] == ("call", "rev") for y in terms(seq)), key, "is not the innermost one", f.loc())
            conds = judged(view, view.st.facts, one[0], set())
        rep.ob("holds" in conds, key, "does not hold the position", f.loc())
        rep.ob("odd" not in conds, key, "is left out although it holds the position", f.loc())
    for w in ("ref", "def", "expression", "Value", "Ctor", "Type"):
        rep.ob(w in kinds, f.id + ": " + w, "never happens", f.loc())
    return n


def selected(it, view, t, out=None):
    """what a lazy pipeline's predicates decide about its elements"""
    out = set() if out is None else out
    if t[0] != "call" or len(t) < 3:
        return out
    if t[1] in ("filter", "flat_map", "map", "filter_map", "for_each") and len(t) == 4 and t[3][0] == "clo":
        from ..front import State
        for s, r in it.apply(t[3], [("elem", t[2])], view.st.copy(), 1):
            r = it.deep(s, r)
            if t[1] == "filter":
                v2 = dict(s.facts)
                if r[0] == "c" and r[1] == 0:
                    continue
                if r[0] == "bin":
                    v2[r] = 1
                judged(view, v2, ("elem", t[2]), out, True)
            elif t[1] == "filter_map":
                if some(r):
                    judged(view, s.facts, ("elem", t[2]), out)
            else:
                selected(it, view, r, out)
    return selected(it, view, t[2], out)


def judged(view, facts, elem, out, must=False):
    """the facts on whether the element holds the position"""
    items = view.path(elem) == ("u", "items", "*") or \
        elem[1][:2] == ("call", "into_internal") and view.path(elem[1][2]) == ("u", "items")
    rels = set()
    for x, v in facts.items():
        if x[0] == "bin" and x[1] in FLIP and isinstance(v, int):
            a, b, op = x[2], x[3], x[1]
            if view.path(a) == ("pos",):
                a, b, op = b, a, FLIP[op]
            if view.path(b) == ("pos",) and any(y == elem for y in terms(a)):
                rels.add(op if v else NEG[op])
    if not items and {"Le", "Ge"} <= rels:
        out.add("holds")
    elif rels and not rels <= ({"Le", "Ge", "Gt"} if items else {"Le", "Ge"}) or must and not rels:
        out.add("odd")
    return out


def run(prog, rep):
    k = K9(prog)
    d = entry(prog, OPTION + "<%s>" % SPAN)
    r = entry(prog, OPTION + "<alloc::vec::Vec<%s>>" % SPAN)
    info = [x for x in {prog.tstr(f.locals[0]) for f in prog.fns.values()} if x.startswith(OPTION + "<ticc::") and x.endswith("Info>")]
    if len(info) != 1:
        raise Anchor("hover")
    h = entry(prog, info[0])
    rep.floor("paths of go to definition", judge_definition(prog, rep, k, d), 15)
    rep.floor("paths of find references", judge_references(prog, rep, k, r), 25)
    rep.floor("paths of hover", judge_hover(prog, rep, k, h), 40)
