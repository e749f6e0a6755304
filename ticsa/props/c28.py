"""C28: names refer to the innermost enclosing binder, and unresolved names are errors."""
from .. import trav
from ..ast import PRE
from ..mir import Anchor
from ..front import Front, State, part, show, items, short, some, NONE, project, OPTION, RESULT
from .c04 import Syn, EXPR, TOK, E, ident, terms

RULE = ("for every form of expression, type, match branch and item, the scope each part is resolved in (reconstructed as the list of "
        "maps and the entries made in them before, by value flow with helpers entered) contains exactly the binders of the form "
        "that enclose the part; a used name is looked up by its text in the scope's own namespace and refers to the symbol found, or "
        "is reported; every bound name gets a fresh symbol that is recorded for it; lookups prefer the inner scope")
ASSUMPTIONS = ["a syntax node's parts are what its accessors return"]

TYPE = PRE + "Type"
ITEM = PRE + "Item"
IRTY = "ticc::compiler::ir::Type"
DEF = "ticc::compiler::ir::Def"
REF = "ticc::compiler::ir::Ref"
KIND = "ticc::compiler::ir::DefKind"
VIS = "ticc::compiler::ir::Visibility"


class K:
    def __init__(self, prog):
        self.prog = prog
        own = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and not f.derived]
        sc = [d for d, a in prog.adts.items() if d.startswith("ticc::") and a["kind"] == "struct" and any(
            prog.tstr(f["t"]).split("<'")[0] == OPTION + "<&" + d for f in a["variants"][0]["f"])]
        if len(sc) != 1:
            raise Anchor("scope, found %s" % sc)
        self.scope = sc[0]
        fs = prog.adts[self.scope]["variants"][0]["f"]
        self.maps = [i for i, f in enumerate(fs) if "HashMap" in prog.tstr(f["t"]) or "BTreeMap" in prog.tstr(f["t"])]
        self.parent = [i for i, f in enumerate(fs) if prog.tstr(f["t"]).startswith(OPTION)]
        if len(self.parent) != 1 or len(self.maps) < 4:
            raise Anchor("scope fields")
        self.parent = self.parent[0]

        def scoped(f):
            return any(prog.adt_of(x) == self.scope for x in f.locals[1:f.nargs + 1])
        self.expr = self.pick("resolver of expressions", [f for f in own if scoped(f) and self.width(f, EXPR) >= 10])
        self.types = [f for f in own if scoped(f) and prog.adt_of(f.locals[0]) == IRTY and self.width(f, TYPE) >= 5]
        if not self.types:
            raise Anchor("resolver of types")
        self.item = self.pick("resolver of items", [f for f in own if scoped(f) and self.width(f, ITEM) >= 3 and
                                                    self.expr.id in self.calls(f, 3)])
        self.lookups = [f for f in own if f.nargs == 2 and prog.adt_of(f.locals[1]) == self.scope and
                        prog.tstr(f.locals[0]).startswith(OPTION) and "str" in prog.tstr(f.locals[2])]
        if len(self.lookups) < 4:
            raise Anchor("lookups in a scope")
        self.adders = [f for f in own if f.nargs >= 2 and prog.adt_of(f.locals[1]) == self.scope and
                       prog.tstr(f.locals[1]).startswith("&mut") and
                       any(prog.adt_of(x) == "ticc::compiler::ir::Item" for x in f.locals[2:f.nargs + 1])]
        if len(self.adders) != 1:
            raise Anchor("scope of an item")
        self.exports = [f for f in own if f.nargs == 3 and prog.tstr(f.locals[0]).startswith(RESULT) and
                        DEF in prog.tstr(f.locals[0])]
        if len(self.exports) != 1:
            raise Anchor("lookup of an export")
        self.exports = self.exports[0]
        self.ns = prog.adt_of(self.exports.locals[2])
        if self.ns is None or prog.adts[self.ns]["kind"] != "enum":
            raise Anchor("namespace")
        self.fresh = [f for f in own if f.nargs == 0 and prog.tstr(f.locals[0]) == "ticc::compiler::ir::Symbol"]

    def pick(self, what, fs):
        if len(fs) != 1:
            raise Anchor("%s, found %d" % (what, len(fs)))
        return fs[0]

    def width(self, f, adt):
        s = trav.main_switch(self.prog, f, adt)
        return len(s[2]) if s else 0

    def calls(self, f, d):
        out = {f.id}
        for _ in range(d):
            for x in list(out):
                out |= set(self.prog.cg().get(x, ()))
        return out

    def kindv(self, n):
        return [v["n"] for v in self.prog.adts[KIND]["variants"]].index(n)

    def field(self, adt, vi, t, n):
        fs = self.prog.adts[adt]["variants"][vi]["f"]
        for i, f in enumerate(fs):
            if f["n"] == n:
                return project(t, (i,))
        raise Anchor("field %s of %s" % (n, adt))


# (usage, namespace) enums of the announcements of uses that C18 looks at
SINK = None


class Res(Syn):
    max_steps = 300000

    def __init__(self, prog, k, roots):
        super().__init__(prog, roots)
        self.k = k
        self.look = {f.id for f in k.lookups}

    entry = None
    forks = True
    tries = True

    def opaque(self, fn, args):
        return fn.id in self.look or fn.id == self.k.exports.id or fn in self.k.fresh or super().opaque(fn, args)

    def unknown(self, callee, args, st, t, fn):
        c = self.prog.fns.get(callee)
        if c is not None and c.id in self.rec:
            n = sum(1 for e in st.trace if e[0] == "rec")
            a = []
            for x, ty in zip(args, c.locals[1:]):
                s = self.prog.tstr(ty)
                if self.prog.adt_of(ty) in (EXPR, TYPE, self.k.scope) or self.prog.adt_of(ty) in (ITEM,):
                    a.append(self.deep(st, x))
                if s.startswith("&mut") and "Vec<" in s and x[0] == "ptr":
                    root, path = self.target(st, x)
                    self.store(st, root, path, ("tvs", n))
            st.trace.append(("rec", c.id) + tuple(a))
            yield st, ("rec", "walk", n) + tuple(a[:1])
            return
        if c is not None and c in self.k.fresh:
            yield st, self.fresh(st, "sym")
            return
        if callee in self.look:
            yield st, ("lookup", callee) + tuple(self.deep(st, x) for x in args)
            return
        if c is not None and c.id == self.k.exports.id:
            yield st, ("export",) + tuple(self.deep(st, x) for x in args)
            return
        if self.record(args, st):
            yield st, ("tup", ())
            return
        if SINK and c is None and len(args) >= 4:
            v = [self.deep(st, x) for x in args]
            use = [x for x in v if x[0] == "adt" and x[1] == SINK[0]]
            ns = [x for x in v if x[0] == "adt" and x[1] == SINK[1]]
            sc = [x for x in v if x == ("sym", "S") or x[0] == "adt" and x[1] == self.k.scope]
            nd = [x for x in v if ident(x) or part(x, E)]
            if len(use) == len(ns) == len(sc) == 1 and nd:
                st.trace.append(("on", use[0], nd[-1], sc[0], ns[0]))
                yield st, ("tup", ())
                return
        yield from super().unknown(callee, args, st, t, fn)

    def record(self, args, st):
        for x in args:
            v = self.deep(st, x)
            if v[0] == "adt" and v[1] in (DEF, REF):
                st.trace.append(("def" if v[1] == DEF else "ref", v))
                return True
            if v[0] == "adt" and v[1].endswith("::RawDiagnostic"):
                st.trace.append(("diag",))
                return True
        return False

    def std(self, name, d, args, st, t, fn, depth):
        if name == "push" and len(args) == 2 and self.record(args[1:], st):
            return [(st, ("tup", ()))]
        if "HashMap" in d and name in ("new", "default", "with_capacity") or \
                name == "default" and "HashMap" in (t["f"].get("r") or "") or name == "default" and "HashMap" in self.dst_type(t, fn):
            n = sum(1 for e in st.trace if e[0] == "newmap")
            st.trace.append(("newmap", n))
            return [(st, ("map", n))]
        if name in ("extend", "from_iter", "from") and args and "HashMap" in (self.dst_type(t, fn) or d) + (t["f"].get("r") or ""):
            src = self.deref(st, args[-1])
            out = []
            n = sum(1 for e in st.trace if e[0] == "newmap")
            xs = [(st.copy(), x) for x in src[1]] if src[0] == "arr" else self.seq_elem(src, st, depth + 1)
            if src[0] == "arr" and len(src[1]) > 1:
                return None
            for s, e in xs:
                e = self.deep(s, e)
                if name == "extend":
                    m = self.deep(s, args[0])
                else:
                    s.trace.append(("newmap", n))
                    m = ("map", n)
                s.trace.append(("insert", m, project(e, (0,)), project(e, (1,))))
                out.append((s, ("tup", ()) if name == "extend" else m))
            return out
        return super().std(name, d, args, st, t, fn, depth)


# ---- what a part sees
class View:
    """entries of a scope at an event of the trace"""

    def __init__(self, k, st, i, scope, part_of=None):
        self.base = None
        self.entries = []       # (map field, key term or part of a type, symbol)
        self.fields = {}
        maps = {}
        while scope[0] == "adt" and scope[1] == k.scope:
            for f in k.maps:
                m = scope[3][f]
                maps[m] = f
                self.fields.setdefault(f, m)
            p = scope[3][k.parent]
            if p[0] != "adt" or p == NONE:
                scope = p
                break
            scope = p[3][0]
        self.base = scope
        self.made = {("map", e[1]): j for j, e in enumerate(st.trace) if e[0] == "newmap"}
        self.loops = [(j, part(e[1], E)) for j, e in enumerate(st.trace[:i]) if e[0] == "iter"]
        self.shared = []
        for e in st.trace[:i]:
            if e[0] == "insert" and e[1] in maps:
                b = text_of(e[2])
                for j, q in self.loops:
                    if q and b and part_of and b[:len(q)] == q == part_of[:len(q)] and self.made.get(e[1], 1 << 30) < j:
                        self.shared.append(b)
                self.entries.append((maps[e[1]], e[2], e[3]))
            if e[0] == "rec" and e[1] in {f.id for f in k.types} and k.binding.get(e[1]):
                s = e[3]
                if s[0] == "adt" and s[3][k.tmap] in maps:
                    self.entries.append((k.tmap, ("vars", e[2]), None))


def argof(k, e):
    """(node, scope) of a recursive call"""
    node = scope = None
    for x in e[2:]:
        if x[0] == "adt" and x[1] == k.scope or x == ("sym", "S"):
            scope = x
        else:
            node = x
    return node, scope


def text_of(t):
    """the name node whose text this is"""
    if t[0] == "acc" and t[1] == "text" and t[2][0] == "acc" and t[2][1] == "token":
        return part(t[2][2], E)
    return None


def vis(prog, t):
    return prog.adts[VIS]["variants"][t[2]]["n"] if t[0] == "adt" and t[1] == VIS else "?"


def known(st, t):
    f = st.facts.get(("call", "discr", t))
    return f if isinstance(f, int) else None


def present(st, path, root=E):
    """the accessor path was found present on this execution"""
    for x, f in st.facts.items():
        if x[0] == "call" and x[1] == "discr" and x[2][0] == "acc" and part(x[2], root) == path:
            return f == 1
    return None


def entered(st, path):
    return any(e[0] == "iter" and part(e[1], E) == path for e in st.trace)


def judge_view(prog, rep, k, st, key, want, where):
    """want: part path -> set of (map, binder path) entries"""
    n = 0
    for i, e in enumerate(st.trace):
        if e[0] != "rec":
            continue
        node, scope = argof(k, e)
        p = part(node, E) if node is not None else None
        if p is None or scope is None:
            rep.ob(False, key, "resolves something that is not a part of it", where)
            continue
        n += 1
        v = View(k, st, i, scope, p)
        rep.ob(not v.shared, "%s: %s" % (key, ".".join(p)), "sees the names bound in the previous ones of them", where)
        got = set()
        for f, kk, sym in v.entries:
            if kk[0] == "vars":
                got.add((f, part(kk[1], E)))
            else:
                got.add((f, text_of(kk)))
        rep.ob(v.base == ("sym", "S"), "%s: %s" % (key, ".".join(p)), "is not resolved in the enclosing scope", where)
        w = want(p, st)
        if w is None:
            rep.ob(False, "%s: %s" % (key, ".".join(p)), "is resolved as a part of it", where)
        else:
            rep.ob(got == w, "%s: %s" % (key, ".".join(p)), "sees %s instead of %s" % (names(k, got), names(k, w)), where)
    return n


def names(k, xs):
    fs = k.prog.adts[k.scope]["variants"][0]["f"]
    return sorted("%s %s" % (fs[f]["n"], ".".join(p) if p else "?") for f, p in xs) or "nothing"


def judge_defs(prog, rep, k, st, key, want, where):
    """every entry made is a fresh symbol recorded as the definition of that name.
    want: binder path -> (map field, kind predicate)"""
    defs = {}
    for e in st.trace:
        if e[0] == "def":
            d = e[1]
            p = ident(k.field(DEF, 0, d, "node"))
            defs.setdefault(p, []).append(d)
            span = k.field(DEF, 0, d, "span")
            rep.ob(p in want and p is not None, key + ": definition", "defines something else", where)
            rep.ob(part(span[2][2], E) == p if span[0] == "acc" and span[1] == "span" and span[2][0] == "acc" else False,
                   key + ": definition", "is recorded at another place than its name", where)
            rep.ob(k.field(DEF, 0, d, "symbol")[0] == "fresh", key + ": definition", "has no symbol of its own", where)
            if p in want:
                v, kd = want[p]
                rep.ob(vis(prog, k.field(DEF, 0, d, "vis")) in v, key + ": visibility", "is " + vis(prog, k.field(DEF, 0, d, "vis")),
                       where)
                rep.ob(kd(k.field(DEF, 0, d, "kind")), key + ": kind of definition",
                       "is " + show(prog, k.field(DEF, 0, d, "kind"))[:200], where)
    for p in want:
        rep.ob(len(defs.get(p, ())) == 1 or present(st, p) is False, key + ": " + ".".join(p),
               "is recorded %d times" % len(defs.get(p, ())), where)
    for e in st.trace:
        if e[0] == "insert":
            p = text_of(e[2])
            ds = defs.get(p, ())
            rep.ob(len(ds) == 1 and k.field(DEF, 0, ds[0], "symbol") == e[3], key + ": binder",
                   "is entered with a symbol that is not its own", where)


def judge_use(prog, rep, k, st, key, name, namespace, look, ns, where, or_fresh=False):
    """the use of a name on this path: reference to what was found, or a report"""
    if getattr(k, "on_use", None):
        k.on_use(st, key, name, namespace, look, ns, where)
    refs = [e[1] for e in st.trace if e[0] == "ref"]
    diag = any(e[0] == "diag" for e in st.trace)
    if present(st, name) is False:
        rep.ob(not refs, key, "refers to something without a name", where)
        return None
    looks = [x[2] for x in st.facts if x[0] == "call" and x[1] == "discr" and x[2][0] in ("lookup", "export")]
    plain = [x for x in looks if x[0] == "lookup"]
    qual = namespace is not None and present(st, namespace) is True
    want = look if not qual else k.role["module"]
    at = name if not qual else namespace
    ok = len(plain) == 1 and plain[0][1] == want and plain[0][2] == ("sym", "S") and text_of(plain[0][3]) == at
    rep.ob(ok, key, "is not looked up by its name in the scope's own namespace", where)
    if not ok:
        return None
    found = known(st, plain[0])
    sym = project(plain[0], (("v", 1), 0))
    if qual and found == 1:
        ex = [x for x in looks if x[0] == "export"]
        ok = len(ex) == 1 and any(y == plain[0] for y in terms(ex[0][1])) and ex[0][2][0] == "adt" and \
            prog.adts[k.ns]["variants"][ex[0][2][2]]["n"] == ns and text_of(ex[0][3]) == name
        rep.ob(ok, key, "is not looked up in the module's exports for its namespace", where)
        if not ok:
            return None
        found = 1 - known(st, ex[0]) if known(st, ex[0]) is not None else None
        di = [f["n"] for f in prog.adts[DEF]["variants"][0]["f"]].index("symbol")
        sym = project(ex[0], (("v", 0), 0, di))
    if found == 1:
        good = [r for r in refs if ident(k.field(REF, 0, r, "node")) == name]
        rep.ob(len(good) == 1 == len(refs) and k.field(REF, 0, good[0], "symbol") == sym, key,
               "does not refer to what was found", where)
        return sym
    rep.ob(not refs, key, "refers to something although it was not found", where)
    if not (or_fresh and any(e[0] == "def" for e in st.trace)):
        rep.ob(diag, key, "is not reported although it was not found", where)
    return None


def run(prog, rep):
    k = K(prog)
    judge_lookups(prog, rep, k)
    judge_adder(prog, rep, k)
    n = judge_expr(prog, rep, k)
    rep.floor("parts of expressions with a scope", n, 14)
    n = judge_types(prog, rep, k)
    rep.floor("forms of types resolved", n, 7)
    judge_items(prog, rep, k)


def tried(x):
    """what `?` goes on with is the value in the option"""
    if not isinstance(x, tuple):
        return x
    x = tuple(tried(y) for y in x)
    return project(x[1], (("v", 1), 0)) if x[:1] == ("ok",) and len(x) == 2 else x


def judge_lookups(prog, rep, k):
    k.lmap = {}
    for f in k.lookups:
        it = Res(prog, k, [])
        it.entry = f.id
        where = f.loc()
        seen = set()
        for st, r in it.start(f, [("sym", "S"), ("sym", "key")]):
            r = tried(it.deep(st, r))
            gets = []
            for x, v in st.facts.items():
                x = tried(x)
                if x[0] == "call" and x[1] == "discr" and x[2][0] == "call" and x[2][1] == "get" and isinstance(v, int):
                    gets.append((x[2], v))
            ok = True
            scope = ("sym", "S")
            hit = None
            for g, v in gets:
                m = g[2]
                ok = ok and m[0] == "proj" and m[1] == scope and m[2] in k.maps and g[3] == ("sym", "key") and hit is None
                if m[0] == "proj":
                    seen.add(m[2])
                if v == 1:
                    hit = g
                scope = project(scope, (k.parent, ("v", 1), 0))
            base = r
            while base[0] == "proj":
                base = base[1]
            if hit is not None:
                ok = ok and (r == some(project(hit, (("v", 1), 0))) or r == hit)
            elif r == NONE:
                par = project(gets[-1][0][2][1], (k.parent,)) if gets else None
                ok = ok and par is not None and known(st, par) == 0
            else:
                ok = ok and bool(gets) and r == ("lookup", f.id, project(gets[-1][0][2][1], (k.parent, ("v", 1), 0)), ("sym", "key"))
            rep.ob(ok, f.id, "does not give the innermost entry of the name: " + show(prog, r)[:120], where)
        rep.ob(len(seen) == 1, f.id, "looks in %d namespaces" % len(seen), where)
        if len(seen) == 1:
            k.lmap[f.id] = min(seen)


def secret(prog, st, vis, flags):
    """is the definition local, and are local definitions wanted, on this path (None: not known)"""
    d = ("call", "discr", vis)
    names = [v["n"] for v in prog.adts[VIS]["variants"]]
    local = names.index("Local")
    left = set(range(len(names)))
    for x, v in st.facts.items():
        if x in (d, vis):
            # one of the kinds, or none of those that were asked for
            left &= {v} if isinstance(v, int) else left - set(v)
        elif x[0] == "bin" and x[1] in ("Eq", "Ne") and d in x[2:]:
            y = x[3] if x[2] == d else x[2]
            if y[0] == "c":
                left &= {y[1]} if (x[1] == "Eq") == (v == 1) else left - {y[1]}
    hides = False if local not in left else True if left == {local} else None
    keeps = [v for x, v in st.facts.items() if x in flags]
    return hides, bool(keeps[-1]) if keeps else None


def judge_adder(prog, rep, k):
    f = k.adders[0]
    where = f.loc()
    it = Syn(prog, [])
    args = []
    for i in range(1, f.nargs + 1):
        d = prog.adt_of(f.locals[i])
        args.append(("sym", "S") if d == k.scope else ("sym", "item") if d == "ticc::compiler::ir::Item" else ("sym", "a%d" % i))
    flags = [("sym", "a%d" % i) for i in range(1, f.nargs + 1) if prog.tstr(f.locals[i]) == "bool"]
    roles = {}
    hidden = False
    for st, _ in it.start(f, args):
        ins = [e for e in st.trace if e[0] == "insert"]
        d = None
        for e in st.trace:
            if e[0] == "iter":
                d = ("elem", e[1])
        if d is None:
            rep.ob(not ins, f.id, "enters names without a definition", where)
            continue
        kind = k.field(DEF, 0, d, "kind")
        kv = known(st, kind)
        named = [v for x, v in st.facts.items() if x == k.field(DEF, 0, d, "has_name")]
        hides, keeps = secret(prog, st, k.field(DEF, 0, d, "vis"), flags)
        local = [v for x, v in st.facts.items() if x[0] in ("bin", "call") and any(y == k.field(DEF, 0, d, "vis") for y in terms(x))]
        if not ins:
            hidden = hidden or bool(local)
            rep.ob(named[-1:] == [0] or hides and keeps is False, f.id,
                   "leaves out a definition that has a name and is not local", where)
            continue
        rep.ob(hides is False or keeps is True, f.id, "enters a local definition where only those of the module are wanted", where)
        if kv is None:
            rep.ob(False, f.id, "does not distinguish the kinds of definitions", where)
            continue
        n = prog.adts[KIND]["variants"][kv]["n"]
        roles.setdefault(n, set()).add(tuple(sorted(e[1][2] for e in ins if e[1][0] == "proj" and e[1][1] == ("sym", "S"))))
        rep.ob(bool(named) and named[-1] == 1, f.id, "enters an unnamed definition", where)
        for e in ins:
            span = k.field(DEF, 0, d, "span")
            rep.ob(any(y == span for y in terms(e[2])), f.id + ": " + n, "is entered under another name", where)
            want = k.field(DEF, 0, d, "symbol") if n != "Module" else project(kind, (("v", k.kindv(n)), 0))
            rep.ob(e[3] == want, f.id + ": " + n, "is entered with another symbol: " + show(prog, e[3])[:100], where)
    for n, r in roles.items():
        rep.ob(len(r) == 1, f.id + ": " + n, "is entered in different namespaces", where)
    one = {n: min(r) for n, r in roles.items()}
    ok = set(one) == {"Value", "Ctor", "Type", "Module"} and all(len(one[n]) == 1 for n in ("Value", "Type", "Module")) and \
        len(one["Ctor"]) == 2 and one["Value"][0] in one["Ctor"] and \
        len({one["Value"], one["Type"], one["Module"]} | {(x,) for x in one["Ctor"]}) == 4
    rep.ob(ok, f.id, "namespaces of the kinds of definitions: %s" % one, where)
    rep.ob(hidden, f.id, "does not hide local definitions", where)
    if not ok:
        raise Anchor("namespaces of a scope")
    k.vmap, k.tmap, k.mmap = one["Value"][0], one["Type"][0], one["Module"][0]
    k.cmap = [x for x in one["Ctor"] if x != k.vmap][0]
    inv = {}
    for fid, m in k.lmap.items():
        inv.setdefault(m, fid)
    k.role = {"value": inv.get(k.vmap), "type": inv.get(k.tmap), "ctor": inv.get(k.cmap), "module": inv.get(k.mmap)}
    for n, x in k.role.items():
        rep.ob(x is not None, "lookup of a " + n, "does not exist")
    k.binding = {t.id: any(prog.adt_of(x) == k.scope and prog.tstr(x).startswith("&mut") for x in t.locals[1:t.nargs + 1])
                 for t in k.types}


def start(prog, k, it, root, adt, vi):
    args = []
    for i in range(1, root.nargs + 1):
        d = prog.adt_of(root.locals[i])
        s = prog.tstr(root.locals[i])
        args.append(("adt", adt, vi, (E,)) if d == adt else ("sym", "S") if d == k.scope else ("sym", "a%d" % i))
    return it.start(root, args)


def is_kind(prog, k, n, pred=lambda t: True):
    return lambda t: t[0] == "adt" and t[1] == KIND and t[2] == k.kindv(n) and pred(t)


def irty(prog, t):
    return prog.adts[IRTY]["variants"][t[2]]["n"] if t[0] == "adt" and t[1] == IRTY else None


def typed(prog, k, st, path):
    """the definition's type is that of the annotation, with the variables it introduced"""
    recs = [e for e in st.trace if e[0] == "rec"]

    def pred(t):
        ty, tv = k.field(KIND, k.kindv("Value"), t, "ty"), k.field(KIND, k.kindv("Value"), t, "type_vars")
        if present(st, path):
            if not (ty[0] == "rec" and part(ty[3], E) == path):
                return False
            return tv == ("tvs", ty[2]) and k.binding.get(recs[ty[2]][1])
        return irty(prog, ty) == "Infer" and tv == ("vecnew",)
    return is_kind(prog, k, "Value", pred)


def untyped(prog, k):
    return is_kind(prog, k, "Value", lambda t: irty(prog, k.field(KIND, k.kindv("Value"), t, "ty")) == "Infer" and
                   k.field(KIND, k.kindv("Value"), t, "type_vars") == ("vecnew",))


PARTS = {"Apply": ("function", "arg"), "Binary": ("lhs", "rhs"), "If": ("cond", "then_value", "else_value"), "Paren": ("inner",)}


def judge_expr(prog, rep, k):
    f = k.expr
    where = f.loc()
    total = 0
    for vi, v in enumerate(prog.adts[EXPR]["variants"]):
        n = v["n"]
        key = "%s: %s" % (f.id, n)
        it = Res(prog, k, [k.expr] + k.types)
        outs = start(prog, k, it, f, EXPR, vi)
        rep.ob(bool(outs), key, "is not resolved", where)
        parts = set()
        for st, _ in outs:
            want, binders = (lambda p, s: None), {}
            if n in PARTS:
                want = lambda p, s, n=n: set() if p in [(x,) for x in PARTS[n]] else None
            elif n == "Let":
                tv = {(k.tmap, ("type_",))} if present(st, ("type_",)) else set()
                want = lambda p, s, tv=tv: {("type_",): set(), ("value",): tv, ("rest",): {(k.vmap, ("name",))} if present(
                    s, ("name",)) else set()}.get(p)
                binders = {("name",): (("Local",), typed(prog, k, st, ("type_",)))}
            elif n == "Lambda":
                want = lambda p, s: {("body",): {(k.vmap, ("param",))} if present(s, ("param",)) else set()}.get(p)
                binders = {("param",): (("Local",), untyped(prog, k))}
            elif n == "Match":
                vs = entered(st, ("cases", "vars", "vars"))
                want = lambda p, s, vs=vs: {("discr",): set(), ("cases", "body"): {(k.vmap, ("cases", "vars", "vars"))} if vs
                                            else set()}.get(p)
                if vs:
                    binders = {("cases", "vars", "vars"): (("Local",), untyped(prog, k))}
                if entered(st, ("cases",)):
                    judge_use(prog, rep, k, st, key + ": constructor", ("cases", "ctor"), ("cases", "namespace"),
                              k.role["ctor"], "Pattern", where)
            elif n == "Name":
                judge_use(prog, rep, k, st, key, ("name",), None, k.role["value"], None, where)
            elif n == "NamespacedName":
                if present(st, ("namespace",)) and present(st, ("name",)):
                    judge_use(prog, rep, k, st, key, ("name",), ("namespace",), k.role["value"], "Value", where)
            total += 0
            judge_view(prog, rep, k, st, key, want, where)
            judge_defs(prog, rep, k, st, key, binders, where)
            for e in st.trace:
                if e[0] == "rec":
                    node, _ = argof(k, e)
                    p = part(node, E) if node is not None else None
                    parts.add(p)
        total += len(parts)
    return total


def judge_types(prog, rep, k):
    n = 0
    for f in k.types:
        where = f.loc()
        for vi, v in enumerate(prog.adts[TYPE]["variants"]):
            n += 1
            name = v["n"]
            key = "%s: %s" % (f.id, name)
            it = Res(prog, k, [k.expr] + k.types)
            outs = start(prog, k, it, f, TYPE, vi)
            rep.ob(bool(outs), key, "is not resolved", where)
            fresh = False
            for st, r in outs:
                r = it.deep(st, r)
                judge_view(prog, rep, k, st, key, lambda p, s: None if not p else
                           {x for x in own_entries(k, s)}, where)

                def child(x, *p):
                    return x[0] == "rec" and part(x[3], E) == p if present(st, p) is not False else irty(prog, x) == "Error"
                if name in ("Int", "Bool", "String"):
                    ok = irty(prog, r) == name
                elif name == "Fn":
                    ok = irty(prog, r) == "Fn" and child(r[3][0], "from") and child(r[3][1], "to")
                elif name == "Paren":
                    ok = child(r, "inner")
                elif name == "Named":
                    sym = judge_use(prog, rep, k, st, key, ("name",), ("namespace",), k.role["type"], "Type", where,
                                    k.binding[f.id])
                    ds = [e[1] for e in st.trace if e[0] == "def"]
                    if sym is None and ds:
                        fresh = True
                        sym = k.field(DEF, 0, ds[0], "symbol")
                        kd = is_kind(prog, k, "Type", lambda t: k.field(KIND, k.kindv("Type"), t, "is_var") == ("c", 1))
                        judge_defs(prog, rep, k, st, key, {("name",): (("Local",), kd)}, where)
                        ins = [e for e in st.trace if e[0] == "insert"]
                        rep.ob(len(ins) == 1 and text_of(ins[0][2]) == ("name",), key + ": type variable",
                               "is not visible where it is used next", where)
                    else:
                        rep.ob(not any(e[0] in ("insert", "def") for e in st.trace), key, "introduces a name", where)
                    if sym is None:
                        ok = irty(prog, r) == "Error"
                    else:
                        args = entered(st, ("type_args",))
                        ok = irty(prog, r) == "Named" and r[3][0] == sym and (
                            r[3][1] == ("vecnew",) if not args else (items(r[3][1]) is not None and len(items(r[3][1])) == 1 and
                                                                     items(r[3][1])[0][0] == "rec" and
                                                                     part(items(r[3][1])[0][3], E) == ("type_args",)))
                else:
                    ok = irty(prog, r) == "Error"
                rep.ob(ok, key, "is resolved to " + show(prog, r)[:200], where)
            if name == "Named":
                rep.ob(fresh == k.binding[f.id], key + ": type variable", "is %sintroduced" % ("" if fresh else "not "), where)
    return n


def own_entries(k, st):
    return set()


def is_export(prog, st, *path):
    """the visibility wanted for an item whose export token is at path"""
    f = present(st, path)
    return ("Export",) if f else ("Module",)


def exporting(prog):
    """accessors of the export tokens of an item"""
    return {short(f.id) for f in prog.fns.values() if f.file.endswith("syntax/node.rs") and "export" in f.id.split("::")[-1]}


def judge_items(prog, rep, k):
    f = k.item
    where = f.loc()
    for vi, v in enumerate(prog.adts[ITEM]["variants"]):
        key = "%s: %s" % (f.id, v["n"])
        it = Res(prog, k, [k.expr] + k.types)
        outs = start(prog, k, it, f, ITEM, vi)
        rep.ob(bool(outs), key, "is not resolved", where)
        judge = {"Value": judge_value_item, "Type": judge_type_item, "Import": judge_import_item}.get(v["n"])
        if judge is None:
            rep.ob(False, key, "is of a kind without rules", where)
            continue
        judge(prog, rep, k, key, outs, where)


def judge_value_item(prog, rep, k, key, outs, where):
    seen = set()
    for st, _ in outs:
        tv = {(k.tmap, ("type_",))} if present(st, ("type_",)) else set()
        want = lambda p, s: {("type_",): set(), ("expr",): tv}.get(p)
        judge_view(prog, rep, k, st, key, want, where)
        judge_defs(prog, rep, k, st, key, {("name",): (is_export(prog, st, "export_token"), typed(prog, k, st, ("type_",)))}, where)
        for e in st.trace:
            if e[0] == "rec":
                seen.add(part(argof(k, e)[0], E))
    rep.ob(seen == {("type_",), ("expr",)}, key, "resolves only %s" % sorted(map(str, seen)), where)


def judge_type_item(prog, rep, k, key, outs, where):
    params, cases = ("params", "params"), ("cases",)
    seen = set()
    for st, _ in outs:
        if any(e[0] == "noiter" and any(y[:2] == ("call", "push") for y in terms(e[1])) for e in st.trace):
            continue        # a list that was filled is not empty
        ps = {(k.tmap, params)} if entered(st, params) else set()
        judge_view(prog, rep, k, st, key, lambda p, s: ps if p[:2] == ("cases", "fields") else None, where)
        var = is_kind(prog, k, "Type", lambda t: k.field(KIND, k.kindv("Type"), t, "is_var") == ("c", 1))
        defs = {ident(k.field(DEF, 0, e[1], "node")): e[1] for e in st.trace if e[0] == "def"}
        tsym = k.field(DEF, 0, defs[("name",)], "symbol") if ("name",) in defs else None
        psym = k.field(DEF, 0, defs[params], "symbol") if params in defs else None
        csym = k.field(DEF, 0, defs[("cases", "name")], "symbol") if ("cases", "name") in defs else None
        want = {}
        if present(st, ("name",)):
            def whole(t):
                kt = k.kindv("Type")
                cs = k.field(KIND, kt, t, "ctors")
                cs = items(cs[3][0]) if cs[0] == "adt" and cs[3] else None
                n = k.field(KIND, kt, t, "param_count")
                np = n == ("c", 0) if not ps else n == ("c", 1) or any(y == psym for y in terms(n))
                return k.field(KIND, kt, t, "is_var") == ("c", 0) and cs == ([csym] if csym else []) and np
            want[("name",)] = (is_export(prog, st, "export_token"), is_kind(prog, k, "Type", whole))
        if ps:
            want[params] = (("Local",), var)
        if entered(st, cases) and present(st, ("cases", "name")):
            if csym is None:
                dup = any(x[0] == "call" and x[1] in ("contains",) and v == 1 for x, v in st.facts.items())
                rep.ob(any(e[0] == "diag" for e in st.trace) and dup, key + ": constructor", "is not defined", where)
            else:
                seen.add(ctor_case(st))
                want[("cases", "name")] = (is_export(prog, st, "export_cases_token"),
                                           is_kind(prog, k, "Ctor", lambda t: is_ctor(prog, k, st, t, tsym, psym)))
        judge_defs(prog, rep, k, st, key, want, where)
    rep.ob({"Rec", "Type", None} <= seen, key + ": fields", "only handles %s" % sorted(map(str, seen)), where)


def ctor_case(st):
    """kind of field on this path"""
    for x, v in st.facts.items():
        if x[0] == "call" and x[1] == "discr" and part(x[2], E) == ("cases", "fields") and x[2][0] == "elem" and isinstance(v, int):
            return "Type" if any(e[0] == "rec" for e in st.trace) or present(st, ("cases", "fields", "ty")) is False else "Rec"
    return None


def is_ctor(prog, k, st, t, tsym, psym):
    kc = k.kindv("Ctor")
    ts = k.field(KIND, kc, t, "type_symbol")
    if tsym is not None and ts != tsym or ts[0] != "fresh":
        return False
    tp = items(k.field(KIND, kc, t, "type_params"))
    if tp != ([psym] if psym else []):
        return False
    fields = items(k.field(KIND, kc, t, "fields"))
    case = ctor_case(st)
    V = lambda n, *a: ("adt", IRTY, [v["n"] for v in prog.adts[IRTY]["variants"]].index(n), tuple(a))
    args = ("vecnew",) if not psym else ("call", "push", ("vecnew",), V("Named", psym, ("vecnew",)))
    whole = V("Named", ts, args)
    ft = k.field(KIND, kc, t, "fn_ty")
    if case is None:
        return fields == [] and ft == whole
    if not fields or len(fields) != 1 or fields[0][0] != "adt":
        return False
    fn = prog.adts[fields[0][1]]["variants"][fields[0][2]]["n"]
    if fn != case:
        return False
    lst = k.field(KIND, kc, t, "fields")
    if any(e[0] == "iter" and e[1] == lst for e in st.trace) and not any(
            e[0] == "iter" and e[1] == ("call", "rev", lst) for e in st.trace):
        return False        # a curried function is built from its last parameter
    if case == "Rec":
        return ft == V("Fn", whole, whole)
    x = fields[0][3][0]
    if present(st, ("cases", "fields", "ty")) is False:
        good = irty(prog, x) == "Error"
    else:
        good = x[0] == "rec" and part(x[3], E) == ("cases", "fields", "ty")
    return good and ft == V("Fn", x, whole)


def judge_import_item(prog, rep, k, key, outs, where):
    exposed = ("exposed_list", "imported_names")
    seen = set()
    for st, _ in outs:
        rep.ob(not any(e[0] == "rec" for e in st.trace), key, "resolves expressions", where)
        defs = {}
        for e in st.trace:
            if e[0] == "def":
                defs.setdefault(ident(k.field(DEF, 0, e[1], "node")), []).append(e[1])
        unit = None
        for p, ds in defs.items():
            for d in ds:
                rep.ob(vis(prog, k.field(DEF, 0, d, "vis")) == "Module", key, "is visible to importers of this module", where)
            if p != exposed:
                kd = k.field(DEF, 0, ds[0], "kind")
                rep.ob(len(ds) == 1 and kd[0] == "adt" and kd[2] == k.kindv("Module"), key, "defines something else", where)
                rep.ob(k.field(DEF, 0, ds[0], "has_name") == ("c", int(p == ("name",))), key,
                       "gives a name to a module that has none", where)
                unit = kd[3][0]
        if unit is None:
            # the module was not found
            continue
        if not entered(st, exposed):
            continue
        found = [x[2] for x, v in st.facts.items() if x[0] == "call" and x[1] == "discr" and x[2][0] == "export" and v == 0]
        tried = {x[2][2][2] for x, v in st.facts.items() if x[0] == "call" and x[1] == "discr" and x[2][0] == "export" and
                 x[2][2][0] == "adt" and text_of(x[2][3]) == exposed}
        rep.ob(len(tried) == len(prog.adts[k.ns]["variants"]), key + ": exposed name", "is not looked for in every namespace", where)
        ds = defs.get(exposed, [])
        seen.add(bool(found))
        good = len(ds) == len(found)
        for x in found:
            good = good and text_of(x[3]) == exposed and any(
                k.field(DEF, 0, d, "symbol") == k.field(DEF, 0, project(x, (("v", 0), 0)), "symbol") and
                k.field(DEF, 0, d, "kind") == k.field(DEF, 0, project(x, (("v", 0), 0)), "kind") for d in ds)
            good = good and any(y == unit or y in terms(unit) for y in terms(x[1]) if y[0] != "sym")
        rep.ob(good, key + ": exposed name", "does not stand for the module's definition", where)
        if not found and any(e[0] == "iter" and len(e) > 1 and not e[1] == exposed for e in st.trace):
            rep.ob(any(e[0] == "diag" for e in st.trace), key + ": exposed name", "is not reported although it is not exported", where)
    rep.ob({True, False} <= seen, key + ": exposed names", "only handles %s" % seen, where)
