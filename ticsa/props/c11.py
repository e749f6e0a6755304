"""C11: the type checker enforces the typing rule of every construct."""
from .. import trav
from ..ast import PRE
from ..mir import Anchor
from ..front import Front, State, part, show, items, short, some, NONE, project, OPTION, RESULT
from .c04 import Syn, EXPR, TOK, OPS, E, ident, spellings, terms

RULE = ("for every form of source expression (and operator), the equations between types that every path of the checker "
        "generates, reconstructed by value flow with helpers entered, are equivalent (by first-order unification) to the form's "
        "typing rule; a failed equation is always diagnosed; the unifier decides every pair of types by their structure, the "
        "occurs check, instantiation and read-back cover every type, and an item's expression is checked against the item's type")
ASSUMPTIONS = ["types of names come from the resolver (the map from symbols to types is taken as given)",
               "unification of the solved form is first-order syntactic unification"]

IRTY = "ticc::compiler::ir::Type"
PRE_IR = "ticc::compiler::ir::"
IFIELD = "ticc::compiler::ir::Field"
EXP = ("exp",)
LEAF = ("Bool", "Int", "String")
PAIR = ("Fn", "Folded")


class K:
    """the functions and types of the type checker"""

    def __init__(self, prog):
        self.prog = prog
        self.root = None
        for f in prog.fns.values():
            if f.crate == "ticc" and f.kind == "fn" and not f.derived and prog.tstr(f.locals[0]) == "()":
                s = trav.main_switch(prog, f, EXPR)
                if s and len(s[2]) >= 10:
                    for x in f.locals[1:f.nargs + 1]:
                        d = prog.adt_of(x)
                        a = prog.adts.get(d)
                        if a and a["kind"] == "struct" and prog.types[x]["k"] == "adt" and len(a["variants"][0]["f"]) == 1 and \
                                prog.tstr(a["variants"][0]["f"][0]["t"]) in ("u32", "usize", "u64"):
                            self.root, self.tyi = f, d
        if self.root is None:
            raise Anchor("type checker of expressions")
        T = self.tyi
        own = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and not f.derived]

        def sig(f):
            return [prog.tstr(x) for x in f.locals[:f.nargs + 1]]
        uni = [f for f in own if sig(f)[1:].count(T) == 2 and f.nargs == 3 and sig(f)[0].startswith(RESULT)]
        if len(uni) != 1:
            raise Anchor("unification of two types")
        self.unify = uni[0]
        self.U = prog.adt_of(self.unify.locals[1])
        meth = [f for f in own if f.nargs and prog.adt_of(f.locals[1]) == self.U]
        tys = {}
        for d, a in prog.adts.items():
            if d.startswith("ticc::") and a["kind"] == "enum" and sum(
                    1 for v in a["variants"] if len(v["f"]) == 2 and all(prog.tstr(x["t"]) == T for x in v["f"])) >= 2:
                tys[d] = a
        if len(tys) != 1:
            raise Anchor("structure of types")
        self.ty = min(tys)
        self.v = {v["n"]: i for i, v in enumerate(prog.adts[self.ty]["variants"])}
        self.irv = {v["n"]: i for i, v in enumerate(prog.adts[IRTY]["variants"])}

        def one(what, pred):
            c = [f for f in meth if pred(f, sig(f))]
            if len(c) != 1:
                raise Anchor("%s, found %d" % (what, len(c)))
            return c[0]
        self.fresh = one("fresh type variable", lambda f, s: s[0] == T and f.nargs == 1)
        self.alloc = one("allocation of a type", lambda f, s: s[0] == T and s[2:] == [self.ty])
        self.inst = one("instantiation", lambda f, s: s[0] == T and f.nargs == 3 and prog.adt_of(f.locals[2]) == IRTY)
        self.norm = one("structure of a type", lambda f, s: s[0] == "%s<%s>" % (OPTION, self.ty) and s[2:] == [T])
        self.final = one("representative", lambda f, s: s[0] == T and s[2:] == [T])
        self.occurs = one("occurs check", lambda f, s: s[0] == "bool" and s[2:] == [T, T])
        self.to_ir = one("read-back", lambda f, s: prog.adt_of(f.locals[0]) == IRTY and s[2:] == [T])
        self.slot = {d: a for d, a in prog.adts.items() if a["kind"] == "enum" and any(
            len(v["f"]) == 1 and prog.tstr(v["f"][0]["t"]) == self.ty for v in a["variants"]) and d.startswith("ticc::")}
        if len(self.slot) != 1:
            raise Anchor("state of a type variable")
        self.slot = min(self.slot)
        # what is known of a name's type
        nt = [d for d, a in prog.adts.items() if d.startswith("ticc::") and a["kind"] == "enum" and len(a["variants"]) == 2 and any(
            len(v["f"]) == 1 and prog.tstr(v["f"][0]["t"]) == T for v in a["variants"]) and any(
            len(v["f"]) == 2 and prog.adt_of(v["f"][0]["t"]) == IRTY for v in a["variants"])]
        if len(nt) != 1:
            raise Anchor("type of a name")
        self.namety = nt[0]
        for i, v in enumerate(prog.adts[self.namety]["variants"]):
            if len(v["f"]) == 1:
                self.infer = i
            else:
                self.given = i
        self.ends = [f for f in meth if f.nargs == 1 and sig(f)[0] == "()"]

    def T(self, n, *a):
        return ("adt", self.ty, self.v[n], tuple(a))


class Chk(Syn):
    max_steps = 200000
    tries = True
    forks = True

    def __init__(self, prog, k):
        super().__init__(prog, [k.root])
        self.k = k
        self.ids = {getattr(k, n).id: n for n in ("unify", "fresh", "alloc", "inst", "norm", "final", "occurs", "to_ir")}

    def opaque(self, fn, args):
        return fn.id in self.ids or super().opaque(fn, args)

    def model(self, name, callee, args, st, t, fn):
        k = self.k
        n = self.ids.get(callee)
        if n == "unify":
            a, b = self.deep(st, args[1]), self.deep(st, args[2])
            s2 = st.copy()
            st.trace.append(("eq", a, b, True))
            s2.trace.append(("eq", a, b, False))
            return [(st, ("adt", RESULT, 0, (("tup", ()),))), (s2, ("adt", RESULT, 1, (("sym", "err"),)))]
        if n == "fresh":
            return [(st, self.fresh(st, "tv"))]
        if n == "alloc":
            return [(st, self.deep(st, args[1]))]
        if n == "inst":
            return [(st, ("inst", self.deep(st, args[1]), self.deep(st, args[2])))]
        if n == "norm":
            x = self.deep(st, args[1])
            for e in st.trace:
                if e[0] == "norm" and e[1] == x:
                    return [(st, e[2])]
            out = []
            for v in (some(k.T("Folded", ("part", 0, x), ("part", 1, x))), some(k.T("Int")), NONE):
                s2 = st.copy()
                s2.trace.append(("norm", x, v))
                out.append((s2, v))
            return out
        if n in ("occurs", "to_ir", "final"):
            return [(st, ("call", n) + tuple(self.deep(st, a) for a in args[1:]))]
        if name == "push" and len(args) == 2:
            v = self.deref(st, args[1])
            if v[0] == "adt" and v[1].endswith("::RawDiagnostic"):
                st.trace.append(("diag",))
                return [(st, ("tup", ()))]
        c = self.prog.fns.get(callee)
        if c is not None and c in k.ends:
            st.trace.append(("end", c.id))
            return [(st, ("tup", ()))]
        return None


# ---- equations
class Clash(Exception):
    pass


def walk(t, s):
    while t in s:
        t = s[t]
    return t


def solve(eqs, bindable, s=None):
    """most general unifier over the bindable atoms, in order of preference"""
    s = dict(s or {})
    work = list(eqs)
    while work:
        a, b = work.pop()
        a, b = walk(a, s), walk(b, s)
        if a == b:
            continue
        pa, pb = bindable(a), bindable(b)
        if pa and (not pb or pa >= pb):
            if occurs_in(a, b, s):
                raise Clash("cyclic")
            s[a] = b
        elif pb:
            if occurs_in(b, a, s):
                raise Clash("cyclic")
            s[b] = a
        elif a[0] == b[0] == "adt" and a[1:3] == b[1:3]:
            work += list(zip(a[3], b[3]))
        elif a[0] == b[0] == "inst" and a[1] == b[1] and len(a[2]) == len(b[2]):
            for x, y in zip(a[2], b[2]):
                if x[0] != y[0]:
                    raise Clash("instantiation")
                work.append((x[1], y[1]))
        else:
            raise Clash("different")
    return s


def occurs_in(v, t, s):
    t = walk(t, s)
    if t == v:
        return True
    if t[0] == "adt":
        return any(occurs_in(v, x, s) for x in t[3])
    if t[0] == "inst":
        return any(occurs_in(v, x[1], s) for x in t[2])
    return False


def entails(a, b, exists):
    """every equation of b holds under a for some value of its own unknowns"""
    def pref(x):
        return 3 if x[0] == "fresh" or x[0] == "some" else 2 if x[0] in ("C", "N", "part") else 1 if x == EXP else 0
    s = solve(a, pref)
    try:
        solve(b, lambda x: 1 if exists(x) else 0, s)
        return True
    except Clash:
        return False


def canon(k, t):
    """types of parts of the program by the place they belong to"""
    if t == ("sym", "a2"):
        return EXP
    if t[0] == "adt":
        return t[:3] + (tuple(canon(k, x) for x in t[3]),)
    if t[0] == "inst":
        v = items(t[2])
        n = nametype(k, t[1], k.given)
        return ("inst", ("T",) + n if n else t[1],
                None if v is None else tuple((x[1][0], canon(k, x[1][1])) if x[0] == "tup" else (x, x) for x in v))
    if t[0] == "part":
        return ("part", t[1], canon(k, t[2]))
    n = nametype(k, t, k.infer)
    if n is not None:
        return ("N",) + n
    return t


def nametype(k, t, vi):
    """path of the name whose known type this is"""
    if t[0] == "proj" and t[2] == 0 and t[1][0] == "proj" and t[1][2] == ("v", vi) and t[1][1][0] != "elem":
        for x in terms(t[1][1]):
            if x[0] in ("call", "at"):
                p = ident(x[-1])
                if p is not None:
                    return p
    return None


def optional(prog):
    """accessors of tokens, which may be missing in a complete tree"""
    return {short(f.id) for f in prog.fns.values() if f.file.endswith("syntax/node.rs") and
            ("SyntaxToken" in prog.tstr(f.locals[0]) or prog.tstr(f.locals[0]) == "bool")}


def complete(st, tokens):
    for k, f in st.facts.items():
        if k[0] == "call" and k[1] == "discr":
            x = k[2]
            none = f == 0 if isinstance(f, int) else 1 in f
            if none and (x[0] == "acc" and x[1] not in tokens or x[0] == "call" and x[1] == "get"):
                return False
    return True


def run(prog, rep):
    k = K(prog)
    n = judge_forms(prog, rep, k)
    rep.floor("forms and operators with a typing rule", n, 24)
    judge_unify(prog, rep, k)
    judge_occurs(prog, rep, k)
    judge_instantiate(prog, rep, k)
    judge_readback(prog, rep, k)
    judge_slots(prog, rep, k)
    judge_ends(prog, rep, k)
    judge_item(prog, rep, k)


def judge_forms(prog, rep, k):
    text = spellings(prog)
    tokens = optional(prog)
    where = k.root.loc()
    n = 0
    for vi, v in enumerate(prog.adts[EXPR]["variants"]):
        cases = [(ti, sp) for ti, sp in sorted(text.items()) if sp in OPS] if v["n"] == "Binary" else [(None, None)]
        for tok, sp in cases:
            n += 1
            it = Chk(prog, k)
            it.tok = tok
            key = "%s: %s" % (k.root.id, v["n"] + (" `%s`" % sp if sp else ""))
            args = []
            for i in range(1, k.root.nargs + 1):
                d = prog.adt_of(k.root.locals[i])
                args.append(("adt", EXPR, vi, (E,)) if d == EXPR else ("sym", "a2") if d == k.tyi else ("sym", "a%d" % (i - 1 or 9)))
            judged = 0
            kinds = set()
            for st, _ in it.start(k.root, args):
                bad = diagnosed(k, st)
                rep.ob(bad is None, key + ": mismatch", bad or "", where)
                rep.ob(any(e[0] == "insert" and ident(e[2]) == () and e[3] == ("sym", "a2") for e in st.trace),
                       key + ": recorded", "the expression's type is not recorded", where)
                if not complete(st, tokens) or any(e[0] == "eq" and not e[3] for e in st.trace):
                    continue
                r = rule(prog, k, v["n"], sp, st)
                if r is None:
                    continue
                kind, spec, why = r
                kinds.add(kind)
                judged += 1
                if spec is None:
                    rep.ob(False, key, why, where)
                    continue
                code = equations(k, st)
                have = {e[0] for e in code if e[0][0] == "C"}
                want = {x for e in spec for x in e if x[0] == "C"}
                rep.ob(want <= have, key, "does not check %s" % [".".join(x[1:]) for x in want - have], where)
                try:
                    a = entails(code, spec, lambda x: x[0] == "some")
                    b = entails(spec, code, lambda x: x[0] == "fresh")
                except Clash:
                    a = b = False
                rep.ob(a and b, key, "%s the typing rule: %s" % (
                    "is weaker than" if b else "is stronger than" if a else "differs from",
                    "; ".join("%s = %s" % (sh(prog, x), sh(prog, y)) for x, y in code)[:300]), where)
            rep.ob(judged > 0, key, "has no complete path", where)
            need = {"Match": {(f, x) for f in (True, False) for x in ("Rec", "Type")}, "Lambda": {True, False},
                    "Name": {True, False}, "NamespacedName": {True, False}, "Let": {True, False}}.get(v["n"])
            if need:
                rep.ob(need <= kinds, key + ": cases", "only handles %s" % sorted(map(str, kinds)), where)
    return n


def sh(prog, t):
    if t[0] in ("C", "N"):
        return ("type of " if t[0] == "C" else "name ") + ".".join(t[1:])
    if t == EXP:
        return "expected"
    if t[0] == "fresh":
        return "?%d" % t[2]
    if t[0] == "adt":
        return prog.adts[t[1]]["variants"][t[2]]["n"] + ("(" + ", ".join(sh(prog, x) for x in t[3]) + ")" if t[3] else "")
    if t[0] == "inst":
        return "inst"
    return show(prog, t)[:60]


def diagnosed(k, st):
    """each failed equation is reported, each solved one is kept"""
    ends = {}
    for f in k.ends:
        ends[f.id] = keeps(k, f)
    for i, e in enumerate(st.trace):
        if e[0] == "eq":
            after = []
            for x in st.trace[i + 1:]:
                if x[0] in ("eq", "rec", "norm"):
                    break
                after.append(x)
            done = [ends[x[1]] for x in after if x[0] == "end"]
            if e[3]:
                if done[:1] != [True]:
                    return "a solved equation is not committed"
            else:
                if done[:1] != [False]:
                    return "a failed equation is not rolled back"
                if not any(x[0] == "diag" for x in after):
                    return "a failed equation is not reported"
    return None


class Ends(Front):
    """what is emptied, and how variables are written"""

    def model(self, name, callee, args, st, t, fn):
        if name in ("clear", "drain", "take", "replace") and args and args[0][0] == "ptr" and (
                name in ("clear", "drain") or callee.startswith("core::mem::")):
            st.trace.append(("emptied", self.deep(st, args[0])))
        return None


def keeps(k, f):
    """does the function write the variables (commit) or only drop what is pending"""
    return any(written(st) for st, _ in Ends(k.prog).start(f, [("sym", "u")]))


def written(st):
    """(variable, value) pairs written"""
    out = []
    for root, v in st.env.items():
        if root[0] == "mem":
            out += [(root[1], v)] if v[0] != "upd" else [(root[1], v[3])] if len(v[2]) > 1 else []
    return [(a, b) for a, b in out if any(x[0] == "elem" or x[0] == "proj" and x[1][0] == "elem" for x in terms(a))]


def judge_ends(prog, rep, k):
    """a success writes every pending solution, a failure none; neither leaves any behind"""
    pend = set()
    runs = []
    for f in k.ends:
        for st, _ in Ends(prog).start(f, [("sym", "u")]):
            w = written(st)
            runs.append((f, st, w))
            for a, b in w:
                pend |= {x[1] for x in terms(a) if x[0] == "elem"}
    if len(pend) != 1:
        raise Anchor("pending solutions")
    p = min(pend)
    done = set()
    for f, st, w in runs:
        e = ("elem", p)
        gone = any(x[0] == "emptied" and x[1] == p for x in st.trace) or any(
            r == ("sym", "u") or r == ("mem", ("sym", "u")) for r, v in st.env.items() if v[0] == "upd" and v[2] == (p[2],))
        rep.ob(gone, f.id + ": pending", "leaves solutions pending", f.loc())
        if ("iter", p) in st.trace and keeps(k, f):
            done.add(f.id)
            rep.ob(("full", p) in st.trace and any(("proj", e, 0) in terms(a) and b == ("proj", e, 1) for a, b in w),
                   f.id + ": solutions", "does not write every pending solution", f.loc())
        if not keeps(k, f):
            done.add(f.id)
    rep.floor("ends of a unification", len(done), 2)


def equations(k, st):
    out = []
    for e in st.trace:
        if e[0] == "rec":
            p = part(e[2], E)
            ty = e[3] if len(e) > 3 else ("sym", "none")
            out.append((("C",) + (p if p is not None else ("?",)), canon(k, ty)))
        elif e[0] == "eq" and e[3]:
            out.append((canon(k, e[1]), canon(k, e[2])))
        elif e[0] == "norm" and e[2] == some(k.T("Folded", ("part", 0, e[1]), ("part", 1, e[1]))):
            out.append((canon(k, e[1]), canon(k, e[2][3][0])))
    return out


def names_at(k, st, path):
    """kind of the name's known type on this path"""
    for f, v in st.facts.items():
        if f[0] == "call" and f[1] == "discr" and isinstance(v, int):
            x = f[2]
            if x[0] == "proj" and x[1][0] == "proj" and x[1][2] == ("v", 1):
                x = ("proj", x[1], 0)
            for y in terms(x):
                if y[0] in ("call", "at") and len(y) > 2 and ident(y[-1]) == path and x[0] in ("proj", "at"):
                    m = trav.discr_map(k.prog, k.namety)
                    if "symbol" and v in m and is_namety(x):
                        return m[v]
    return None


def is_namety(x):
    """the looked up value itself (two nested lookups)"""
    return sum(1 for y in terms(x) if y[0] in ("call", "at") and y[1] in ("get",) or y[0] == "at") >= 2


def rule(prog, k, form, sp, st):
    """(case, equations of the typing rule, complaint)"""
    C = lambda *p: ("C",) + p
    N = lambda *p: ("N",) + p
    T = k.T
    if form in ("Name", "NamespacedName"):
        kd = names_at(k, st, ("name",))
        if kd is None:
            return None
        if kd == k.infer:
            return True, [(EXP, N("name"))], ""
        # instantiated with one fresh variable per type variable, recorded for the code generator
        for e in st.trace:
            if e[0] == "eq":
                for x, y in ((e[1], e[2]), (e[2], e[1])):
                    if x == ("sym", "a2") and y[0] == "inst":
                        v = items(y[2])
                        if nametype(k, y[1], k.given) != ("name",):
                            return False, None, "is given the type of something else"
                        if v is None:
                            return False, None, "has unknown instantiation"
                        rec = [z for z in st.trace if z[0] == "insert" and ident(z[2]) == ("name",)]
                        got = items(rec[-1][3]) if rec else None
                        if got != [z[1][1] for z in v]:
                            return False, None, "the instantiation is not recorded"
                        for z in v:
                            if z[1][1][0] != "fresh" or z[1][0][0] != "elem" or not given_vars(k, z[1][0][1]):
                                return False, None, "is not instantiated with fresh variables"
                        return False, [(EXP, canon(k, y))], ""
        return False, None, "is not unified with its instantiated type"
    if form == "Apply":
        return None if False else 0, [(C("function"), T("Fn", C("arg"), EXP))], ""
    if form == "Binary":
        lv = OPS[sp][1]
        if lv == 1:
            return 0, [(C("rhs"), T("Fn", C("lhs"), EXP))], ""
        return 0, [(C("lhs"), T("Int")), (C("rhs"), T("Int")), (EXP, T("Bool") if lv == 2 else T("Int"))], ""
    if form == "Let":
        kd = names_at(k, st, ("name",))
        if kd is None:
            return None
        b = N("name") if kd == k.infer else ("inst", ("T", "name"), ())
        return kd == k.infer, [(C("value"), b), (C("rest"), EXP)], ""
    if form == "If":
        return 0, [(C("cond"), T("Bool")), (C("then_value"), EXP), (C("else_value"), EXP)], ""
    if form == "Bool":
        return 0, [(EXP, T("Bool"))], ""
    if form == "Number":
        return 0, [(EXP, T("Int"))], ""
    if form == "String":
        return 0, [(EXP, T("String"))], ""
    if form == "Paren":
        return 0, [(C("inner"), EXP)], ""
    if form == "Hole":
        return 0, [], ""
    if form == "Lambda":
        if names_at(k, st, ("param",)) != k.infer:
            return None
        fold = folds(st)
        if fold is None:
            return 0, None, "does not distinguish fold"
        a, b = ("some", "a"), ("some", "b")
        return fold, [(EXP, T("Fn", a, b)), (C("body"), b), (N("param"), T("Folded", a, b) if fold else a)], ""
    if form == "Match":
        return match_rule(prog, k, st, C, N, T)
    return 0, None, "has no typing rule"


def given_vars(k, t):
    """the type variables of the name's declared type"""
    return t[0] == "proj" and t[2] == 1 and t[1][0] == "proj" and t[1][2] == ("v", k.given)


def folds(st):
    for f, v in st.facts.items():
        x = f[2] if f[0] == "call" and f[1] == "discr" else f
        if x[0] == "acc" and "fold" in x[1]:
            return v == 1 if isinstance(v, int) else 0 in v
    return None


def match_rule(prog, k, st, C, N, T):
    if any(e[0] == "noiter" and any(y[:2] == ("call", "push") for y in terms(e[1])) for e in st.trace):
        return None         # a list that was just added to is not empty
    cases = any(e[0] == "iter" and part(e[1], E) == ("cases",) for e in st.trace)
    D = C("discr")
    folded = any(e[0] == "norm" and e[2] != NONE and e[2][3][0][3] for e in st.trace)
    eqs = [(C("cases", "body"), EXP)] if cases else [(D, D)]
    prim = rec = D
    if folded:
        dv = [canon(k, e[1]) for e in st.trace if e[0] == "norm" and e[2] != NONE and e[2][3][0][3]]
        prim, rec = ("part", 0, dv[0]), ("part", 1, dv[0])
        eqs.append((D, T("Folded", prim, rec)))
    if not cases:
        return 0, eqs, ""
    ctor = None
    for e in st.trace:
        if e[0] == "eq":
            for x in (e[1], e[2]):
                y = x
                while y[0] == "adt" and y[1] == k.ty and y[2] == k.v["Apply"]:
                    y = y[3][0]
                if y[0] == "adt" and y[1] == k.ty and y[2] == k.v["Named"]:
                    ctor = (x, y[3][0])
    if ctor is None:
        return 0, None, "the constructor's type is not compared"
    t, sym = ctor
    if not (sym[0] == "proj" and any(ident(y[-1]) == ("cases", "ctor") for y in terms(sym) if y[0] in ("call", "at"))):
        return 0, None, "the constructor's type is not that of the constructor"
    cd = sym[1]
    tvars = any(e[0] == "iter" and e[1][0] == "proj" and e[1][1] == cd and e[1] != fields_of(k, cd) for e in st.trace)
    fld = any(e[0] == "iter" and any(y[0] == "acc" and y[1] == "vars" for y in terms(e[1])) for e in st.trace)
    ta = ("some", "t")
    eqs.append((prim, T("Apply", T("Named", sym), ta) if tvars else T("Named", sym)))
    same = counts(k, st, cd)
    if same is False:
        if not any(e[0] == "diag" for e in st.trace):
            return 0, None, "a wrong number of variables is not reported"
        return (folded, "count"), eqs, ""
    if fld:
        if same is None:
            return 0, None, "the number of variables is not compared"
        kd = None
        for f, v in st.facts.items():
            if f[0] == "call" and f[1] == "discr" and f[2] == ("elem", fields_of(k, cd)) and isinstance(v, int):
                kd = prog.adts[IFIELD]["variants"][trav.discr_map(prog, IFIELD)[v]]["n"]
        if names_at(k, st, ("cases", "vars", "vars")) != k.infer:
            return None
        nm = N("cases", "vars", "vars")
        if kd == "Rec":
            eqs.append((nm, rec))
        elif kd == "Type":
            fi = [i for i, x in enumerate(prog.adts[IFIELD]["variants"]) if x["n"] == "Type"][0]
            ty = project(("elem", fields_of(k, cd)), (("v", fi), 0))
            tv = [e[1] for e in st.trace if e[0] == "iter" and e[1][0] == "proj" and e[1][1] == cd and e[1] != fields_of(k, cd)]
            eqs.append((nm, ("inst", ty, ((("elem", tv[0]), ta),) if tvars else ())))
        else:
            return 0, None, "the kind of the field is not distinguished"
        return (folded, kd), eqs, ""
    if same is None and not any(e[0] == "noiter" and any(y == fields_of(k, cd) or y[0] == "acc" and y[1] == "vars"
                                                         for y in terms(e[1])) for e in st.trace):
        return None
    return (folded, "none"), eqs, ""


def fields_of(k, cd):
    """the constructor's list of fields, of the value known for it"""
    for d, a in k.prog.adts.items():
        if d.startswith("ticc::") and a["kind"] == "struct":
            fs = a["variants"][0]["f"]
            hit = [i for i, f in enumerate(fs) if k.prog.tstr(f["t"]).startswith("&") and IFIELD in k.prog.tstr(f["t"])]
            if hit and any("Symbol" in k.prog.tstr(f["t"]) for f in fs):
                return ("proj", cd, hit[0])
    raise Anchor("known constructor")


def counts(k, st, cd):
    """True / False: the numbers of variables and fields were found equal / different; None: not compared"""
    f = fields_of(k, cd)
    for x, v in st.facts.items():
        if x[0] == "bin" and x[1] in ("Eq", "Ne") and isinstance(v, int):
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                if a == ("call", "len", f) or a == ("un", "PtrMetadata", f) or (a[0] in ("call", "un") and f in terms(a)):
                    if b == ("c", 0) or any(y[0] == "acc" and y[1] == "vars" for y in terms(b)):
                        return (v == 1) == (x[1] == "Eq")
    return None


# ---- the unifier
class Uni(Front):
    """structure of the two types given; recursion, occurs check and insertion are events"""

    def __init__(self, prog, k, shape):
        super().__init__(prog)
        self.k, self.shape = k, shape
        self.ids = {getattr(k, n).id: n for n in ("unify", "norm", "final", "occurs")}

    def opaque(self, fn, args):
        return fn.id in self.ids

    def model(self, name, callee, args, st, t, fn):
        n = self.ids.get(callee)
        a = [self.deep(st, x) for x in args[1:]]
        if n == "final":
            return [(st, a[0] if a[0][0] == "fin" else ("fin", a[0]))]
        if n == "norm":
            x = a[0][1] if a[0][0] == "fin" else a[0]
            return [(st, self.shape[x])] if x in self.shape else None
        if n == "occurs":
            s2 = st.copy()
            st.trace.append(("occurs", a[0], a[1], True))
            s2.trace.append(("occurs", a[0], a[1], False))
            return [(st, ("c", 1)), (s2, ("c", 0))]
        if n == "unify":
            s2 = st.copy()
            st.trace.append(("eq", a[0], a[1], True))
            s2.trace.append(("eq", a[0], a[1], False))
            return [(st, ("adt", RESULT, 0, (("tup", ()),))), (s2, ("adt", RESULT, 1, (("sym", "err"),)))]
        if name == "insert" and len(args) == 3:
            st.trace.append(("insert", a[0], a[1]))
            return [(st, NONE)]
        return None

    def std(self, name, d, args, st, t, fn, depth):
        if name == "branch":
            v = self.deref(st, args[0])
            if v[0] == "adt" and v[1] == RESULT:
                return [(st, ("adt", "core::ops::control_flow::ControlFlow", v[2], (v[3][0] if v[2] == 0 else v,)))]
        if name == "from_residual":
            return [(st, ("adt", RESULT, 1, (("sym", "err"),)))]
        if name == "and_then" and "result" in d:
            v = self.deref(st, args[0])
            if v[0] == "adt" and v[1] == RESULT:
                return [(st, v)] if v[2] == 1 else list(self.apply(args[1], [v[3][0]], st, depth, t))
        return super().std(name, d, args, st, t, fn, depth)


def shapes(k, side):
    out = [(None, NONE)]
    for n, i in k.v.items():
        fs = k.prog.adts[k.ty]["variants"][i]["f"]
        out.append((n, some(("adt", k.ty, i, tuple(("sym", "%s%d" % (side, j)) for j in range(len(fs)))))))
    return out


def judge_unify(prog, rep, k):
    f = k.unify
    n = 0
    fa, fb = ("fin", ("sym", "x")), ("fin", ("sym", "y"))
    for na, va in shapes(k, "a"):
        for nb, vb in shapes(k, "b"):
            n += 1
            key = "%s: %s ~ %s" % (f.id, na or "unknown", nb or "unknown")
            it = Uni(prog, k, {("sym", "x"): va, ("sym", "y"): vb})
            args = [("sym", "self"), ("sym", "x"), ("sym", "y")]
            seen = set()
            for st, v in it.start(f, args):
                v = it.deep(st, v)
                ok = v[0] == "adt" and v[2] == 0
                if v[0] == "call" and v[1] == "residual":
                    ok = False
                same = equal(st, fa, fb)
                if same:
                    rep.ob(ok and not any(e[0] in ("eq", "insert") for e in st.trace), key, "differs for one type with itself", f.loc())
                    continue
                eqs = [e for e in st.trace if e[0] == "eq"]
                ins = [e for e in st.trace if e[0] == "insert"]
                good = None
                if va == NONE or vb == NONE:
                    if ok:
                        good = len(ins) == 1 and not eqs
                        if good:
                            var, other = (fa, fb) if key_is(ins[0][1], fa) else (fb, fa)
                            var_shape = va if var == fa else vb
                            x = ins[0][2]
                            good = key_is(ins[0][1], var) and var_shape == NONE and x[0] == "adt" and x[1] == k.slot and \
                                x[3] == (other,) and ("occurs", var, other, False) in st.trace
                    else:
                        good = any(e[0] == "occurs" and e[3] for e in st.trace) and not ins
                elif na == "Error" or nb == "Error":
                    good = ok and not eqs and not ins
                elif na == nb and na in LEAF:
                    good = ok and not eqs and not ins
                elif na == nb == "Named":
                    q = equal(st, ("sym", "a0"), ("sym", "b0"))
                    good = q is not None and ok == q and not ins
                elif na == nb:
                    want = [("eq", ("sym", "a%d" % i), ("sym", "b%d" % i)) for i in range(2)]
                    got = [e[:3] for e in eqs]
                    good = not ins and (ok and sorted(got) == sorted(want) and all(e[3] for e in eqs) or
                                        not ok and any(not e[3] for e in eqs) and set(got) <= set(want))
                else:
                    good = not ok
                seen.add(ok)
                rep.ob(bool(good), key, "%s with %s" % ("succeeds" if ok else "fails", [e[:3] for e in st.trace]), f.loc())
            rep.ob(bool(seen), key, "is not decided", f.loc())
    rep.floor("pairs of type structures unified", n, 81)


def key_is(t, x):
    return x in terms(t)


def equal(st, a, b):
    for x, v in st.facts.items():
        if x[0] == "bin" and x[1] in ("Eq", "Ne") and isinstance(v, int):
            p, q = x[2], x[3]
            while p[0] == q[0] == "proj" and p[2] == q[2]:
                p, q = p[1], q[1]
            if {p, q} == {a, b}:
                return (v == 1) == (x[1] == "Eq")
    return None


def judge_occurs(prog, rep, k):
    f = k.occurs
    for n, v in shapes(k, "c"):
        key = "%s: in %s" % (f.id, n or "unknown")
        it = Uni(prog, k, {("sym", "y"): v})
        seen = False
        for st, r in it.start(f, [("sym", "self"), ("fin", ("sym", "x")), ("sym", "y")]):
            r = it.deep(st, r)
            same = equal(st, ("fin", ("sym", "x")), ("fin", ("sym", "y")))
            if same is None or r[0] != "c":
                rep.ob(False, key, "the variable is not compared", f.loc())
                continue
            seen = True
            if same:
                rep.ob(r == ("c", 1), key, "a variable does not occur in itself", f.loc())
                continue
            oc = [e for e in st.trace if e[0] == "occurs"]
            want = {("sym", "c0"), ("sym", "c1")} if n in PAIR + ("Apply",) else set()
            if r[1]:
                ok = any(e[3] and e[2] in want and e[1] == ("fin", ("sym", "x")) for e in oc)
            else:
                ok = {e[2] for e in oc if not e[3] and e[1] == ("fin", ("sym", "x"))} == want and not any(e[3] for e in oc)
            rep.ob(ok, key, "is answered %s after looking into %s" % (bool(r[1]), [e[2] for e in oc]), f.loc())
        rep.ob(seen, key, "is not decided", f.loc())


class Ins(Chk):
    def __init__(self, prog, k):
        super().__init__(prog, k)
        del self.ids[k.inst.id]

    def opaque(self, fn, args):
        return fn.id == self.k.inst.id or super().opaque(fn, args)

    def model(self, name, callee, args, st, t, fn):
        if callee == self.k.inst.id:
            return [(st, ("inst", self.deep(st, args[1]), self.deep(st, args[2])))]
        return super().model(name, callee, args, st, t, fn)


def judge_instantiate(prog, rep, k):
    f = k.inst
    for vi, v in enumerate(prog.adts[IRTY]["variants"]):
        key = "%s: %s" % (f.id, v["n"])
        it = Ins(prog, k)
        flds = tuple(("sym", "f%d" % i) for i in range(len(v["f"])))
        vs = ("sym", "vars")
        n = 0
        for st, r in it.start(f, [("sym", "self"), ("adt", IRTY, vi, flds), vs]):
            n += 1
            r = it.deep(st, r)
            if v["n"] in LEAF + ("Error",):
                ok = r == k.T(v["n"])
            elif v["n"] == "Infer":
                ok = r[0] == "fresh"
            elif v["n"] in PAIR:
                ok = r == k.T(v["n"], *[("inst", x, vs) for x in flds])
            elif v["n"] == "Named":
                args = any(e[0] == "iter" and e[1] == flds[1] for e in st.trace)
                b = r
                ok = True
                if args:
                    ok = b[0] == "adt" and b[2] == k.v["Apply"] and b[3][1] == ("inst", ("elem", flds[1]), vs)
                    b = b[3][0] if ok else b
                hit = [equal(st, flds[0], z) for z in (("proj", ("elem", vs), 0),)]
                if hit[0]:
                    ok = ok and b == ("proj", ("elem", vs), 1)
                else:
                    ok = ok and b == k.T("Named", flds[0])
            else:
                ok = False
            rep.ob(ok, key, "becomes " + show(prog, r)[:160], f.loc())
        rep.ob(n > 0, key, "is not instantiated", f.loc())
        if v["n"] == "Named":
            rep.ob(n >= 4, key, "a type variable is not replaced", f.loc())


class Back(Front):
    def __init__(self, prog, k, shape):
        super().__init__(prog)
        self.k, self.shape = k, shape

    def opaque(self, fn, args):
        return fn.id in (self.k.to_ir.id, self.k.norm.id)

    def model(self, name, callee, args, st, t, fn):
        if callee == self.k.norm.id:
            x = self.deep(st, args[1])
            return [(st, self.shape)] if x == ("sym", "t") else None
        if callee == self.k.to_ir.id:
            x = self.deep(st, args[1])
            if x == ("sym", "c0") and self.shape[3][0][2] == self.k.v["Apply"]:
                return [(st, ("adt", IRTY, self.k.irv["Named"], (("sym", "head"), ("call", "push", ("vecnew",), ("sym", "first")))))]
            return [(st, ("back", x))]
        return None


def judge_readback(prog, rep, k):
    f = k.to_ir
    for n, v in shapes(k, "c"):
        key = "%s: %s" % (f.id, n or "unknown")
        it = Back(prog, k, v)
        outs = it.start(f, [("sym", "self"), ("sym", "t")])
        rep.ob(bool(outs), key, "is not read back", f.loc())
        for st, r in outs:
            r = it.deep(st, r)
            w = lambda nm, *a: ("adt", IRTY, k.irv[nm], tuple(a))
            if n is None:
                want = w("Infer")
            elif n in PAIR:
                want = w(n, ("back", ("sym", "c0")), ("back", ("sym", "c1")))
            elif n == "Named":
                want = w("Named", ("sym", "c0"), ("vecnew",))
            elif n == "Apply":
                want = w("Named", ("sym", "head"), ("call", "push", ("call", "push", ("vecnew",), ("sym", "first")), ("back", ("sym", "c1"))))
            else:
                want = w(n)
            rep.ob(r == want, key, "is read back as " + show(prog, r)[:160], f.loc())


class Slot(Front):
    def __init__(self, prog, k, slot):
        super().__init__(prog)
        self.k, self.slot = k, slot

    def opaque(self, fn, args):
        return fn.id in (self.k.final.id, self.k.norm.id) or prog_slot(self.prog, self.k, fn)

    def model(self, name, callee, args, st, t, fn):
        c = self.prog.fns.get(callee)
        if c is None:
            return None
        if callee == self.k.final.id:
            x = self.deep(st, args[1])
            return [(st, x if x[0] == "fin" else ("fin", x))]
        if prog_slot(self.prog, self.k, c):
            # a link leads to another link and then to a variable
            x = self.deep(st, args[1])
            st.trace.append(("read", x))
            if x in (("sym", "t"), ("fin", ("sym", "t"))):
                st.credit += 1
                return [(st, self.slot)]
            vs = self.prog.adts[self.k.slot]["variants"]
            link = [i for i, v in enumerate(vs) if v["f"] and self.prog.tstr(v["f"][0]["t"]) == self.k.tyi]
            free = [i for i, v in enumerate(vs) if not v["f"]]
            if x == ("sym", "n") and link:
                st.credit += 1
                return [(st, ("adt", self.k.slot, link[0], (("sym", "n2"),)))]
            return [(st, ("adt", self.k.slot, free[0], ()))] if free else [(st, self.slot)]
        return None


def prog_slot(prog, k, f):
    return prog.adt_of(f.locals[0]) == k.slot and f.nargs == 2


def judge_slots(prog, rep, k):
    """the representative of a type is found through links; its structure is that of the representative"""
    vs = prog.adts[k.slot]["variants"]
    n = 0
    for vi, v in enumerate(vs):
        val = ("adt", k.slot, vi, tuple(("sym", "n") for _ in v["f"]))
        link = bool(v["f"]) and prog.tstr(v["f"][0]["t"]) == k.tyi
        known = bool(v["f"]) and not link
        it = Slot(prog, k, val)
        for st, r in it.start(k.final, [("sym", "self"), ("sym", "t")]):
            n += 1
            r = it.deep(st, r)
            end = r == ("sym", "n2") and ("read", r) in st.trace
            rep.ob(link and end or r == (("fin", ("sym", "n")) if link else ("sym", "t")), "%s: %s" % (k.final.id, v["n"]),
                   "is " + show(prog, r), k.final.loc())
        if not link:
            it = Slot(prog, k, val)
            for st, r in it.start(k.norm, [("sym", "self"), ("sym", "t")]):
                n += 1
                r = it.deep(st, r)
                rep.ob(r == (some(("sym", "n")) if known else NONE), "%s: %s" % (k.norm.id, v["n"]),
                       "is " + show(prog, r), k.norm.loc())
    rep.floor("variable states read", n, 5)


# ---- the item
VIS = PRE_IR + "Visibility"


class Item(Chk):
    vis = None

    def variant(self, v, adt, st):
        if adt == VIS and self.vis is not None:
            return self.vis
        return None

    def simplify(self, t, st):
        if t[0] == "bin" and t[1] in ("Eq", "Ne") and self.vis is not None:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if b[0] == "adt" and b[1] == VIS and a[0] != "adt":
                    return ("c", int((b[2] == self.vis) == (t[1] == "Eq")))
        return super().simplify(t, st)


class Types(Item):
    """an inferred type is one with unknown parts everywhere"""
    recursion = 6

    def model(self, name, callee, args, st, t, fn):
        if callee == self.k.to_ir.id:
            st.trace.append(("read", self.deep(st, args[1])))
            return [(st, boxed(st, sample(self.k)))]
        return super().model(name, callee, args, st, t, fn)


def sample(k):
    w = lambda nm, *a: ("adt", IRTY, k.irv[nm], tuple(a))
    i = w("Infer")
    n = lambda *a: w("Named", ("sym", "s"), ("arr", tuple(a)))
    return w("Fn", w("Fn", i, n(i, w("Fn", w("Bool"), i))), w("Folded", w("Fn", i, w("String")), w("Folded", n(i), i)))


def boxed(st, t):
    """a value whose parts can be written through the boxes that hold them"""
    if t[0] == "arr" or t[0] == "adt" and len(t[3]) == 2 and t[3][0][0] == "adt":
        fs = []
        for x in t[-1]:
            r = ("mem", ("sym", "box%d" % sum(1 for y in st.env if y[0] == "mem" and y[1][0] == "sym" and y[1][1].startswith("box"))))
            st.env[r] = ("tup", ())
            st.env[r] = boxed(st, x)
            fs.append(("ptr", r, ()))
        return t[:-1] + (tuple(fs),)
    if t[0] == "adt":
        return t[:-1] + (tuple(boxed(st, x) for x in t[-1]),)
    return t


def settled(k, t):
    """the type with its unknown parts made int"""
    if t[0] == "adt" and t[1] == IRTY and t[2] == k.irv["Infer"]:
        return t[:2] + (k.irv["Int"],) + t[3:]
    if t[0] in ("adt", "arr"):
        return t[:-1] + (tuple(settled(k, x) for x in t[-1]),)
    return t


def stored_types(st, base):
    """types written to what belongs to base"""
    out = []

    def go(v):
        if v[0] == "upd":
            go(v[1])
            go(v[3])
        elif v[0] == "adt" and v[1] == IRTY:
            out.append(v)
    for root, v in st.env.items():
        if root[0] == "mem" and base in terms(root[1]):
            go(v)
    return out


def judge_settled(prog, rep, k, f):
    """what other items see of an inferred type has no unknown part"""
    want = settled(k, sample(k))
    n = 0
    for vi, v in enumerate(prog.adts[VIS]["variants"]):
        it = Types(prog, k)
        it.rec = {k.root.id}
        it.vis = vi
        key = "%s: type of %s definition" % (f.id, v["n"])
        defs = [i for i, x in enumerate(prog.adts[prog.adt_of(f.locals[1])]["variants"][0]["f"]) if x["n"] == "defs"]
        base = ("proj", ("sym", "item"), defs[0])
        hit = False
        for st, _ in it.start(f, [("sym", "item"), ("sym", "defs")]):
            for t in stored_types(st, base):
                n += 1
                hit = True
                t = it.deep(st, t)
                rep.ob(t == want or v["n"] == "Local" and settled(k, t) == want, key,
                       "is recorded as " + show(prog, t)[:200], f.loc())
        rep.ob(hit, key, "is never recorded", f.loc())
    rep.floor("kinds of definitions given a type", n, 3)


def judge_item(prog, rep, k):
    tops = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and k.root.id in prog.cg()[f.id] and
            f.id != k.root.id and prog.adt_of(f.locals[1]) == "ticc::compiler::ir::Item"]
    if len(tops) != 1:
        raise Anchor("type checker of an item")
    f = tops[0]
    judge_settled(prog, rep, k, f)
    it = Item(prog, k)
    it.rec = {k.root.id}
    seen = set()
    for st, _ in it.start(f, [("sym", "item"), ("sym", "defs")]):
        for e in st.trace:
            if e[0] == "rec" and e[2][0] == "proj" and any(x[0] == "acc" and x[1] == "expr" for x in terms(e[2])):
                ty = e[3]
                named = None
                for kk, v in st.facts.items():
                    if kk[0] == "call" and kk[1] == "discr" and kk[2][0] == "acc" and kk[2][1] == "name":
                        named = v
                if named != 1:
                    continue
                if ty[0] == "inst":
                    seen.add("given")
                    rep.ob(items(ty[2]) == [], f.id + ": declared", "the declared type is instantiated", f.loc())
                elif ty[0] == "fresh":
                    # the variable registered for the symbol
                    reg = [x for x in st.trace if x[0] == "insert" and x[3][0] == "adt" and x[3][1] == k.namety and
                           x[3][2] == k.infer]
                    seen.add("inferred")
                    rep.ob(any(ty in terms(x[3]) for x in reg), f.id + ": inferred", "is not the variable of the item's name", f.loc())
                else:
                    ok = nametype(k, ty, k.infer) is not None or ty[0] == "proj" and ty[1][0] == "proj" and \
                        ty[1][2] == ("v", k.infer)
                    seen.add("inferred" if ok else "other")
                    rep.ob(ok, f.id + ": expected", "is checked against " + show(prog, ty)[:120], f.loc())
    rep.ob({"given", "inferred"} <= seen, f.id + ": expected", "only handles %s" % sorted(seen), f.loc())
