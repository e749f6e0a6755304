"""C04: every source construct is translated to the core construct it denotes."""
import os, re
from .. import trav, build
from ..ast import PRE
from ..mir import Anchor
from ..front import Front, State, V, P, L, ANY, match, part, show, items, short, some, project

RULE = ("for every kind of source expression (and every operator token), the core term the code generator returns on "
        "every path, reconstructed by value flow with helpers entered, is the one that denotes it: operator, roles and "
        "order of the parts, binders, literals; names are looked up in the map their binders were entered in; the token "
        "spelled as an operator is classified, bound, printed and compiled as that operator; each builtin name denotes "
        "its primitive applied to its parameters in order")
ASSUMPTIONS = ["the parts of a node are what its accessors return", "the standard library's .tic sources are data"]

EXPR = PRE + "Expr"
CEXPR = "ticc_core::ir::Expr"
COP = "ticc_core::ir::Op"
CINTR = "ticc_core::ir::Intrinsic"
TOK = "ticc_syntax::TokenKind"
E = ("sym", "E")

# spelled operator -> core operation, precedence level (higher binds tighter)
OPS = {"+": ("Add", 3), "-": ("Subtract", 3), "*": ("Multiply", 4), "/": ("Divide", 4), "%": ("Modulo", 4),
       "<": ("Less", 2), "<=": ("LessEq", 2), ">": ("Greater", 2), ">=": ("GreaterEq", 2), "==": ("Equal", 2),
       "!=": ("NotEqual", 2), "|>": (None, 1)}
BUILTINS = {"stringLength": ("StringLen", "s"), "stringConcat": ("StringConcat", "ss"),
            "stringCharAt": ("StringCharAt", "is"), "stringSubstring": ("StringSubstring", "iis"),
            "stringFromChar": ("StringFromChar", "i"), "intToString": ("IntToString", "i")}


def syntax_fn(fn):
    return fn.file.endswith("syntax/node.rs") or fn.crate == "ticc_syntax"


class Syn(Front):
    """syntax accessors are terms, the dispatcher's own calls are `rec`"""

    def __init__(self, prog, rec=(), closed=()):
        super().__init__(prog)
        self.rec = {f.id for f in rec}
        self.closed = {f.id for f in closed}
        self.tok = None

    def opaque(self, fn, args):
        return fn.id in self.rec or fn.id in self.closed or syntax_fn(fn)

    def variant(self, v, adt, st):
        if adt == TOK and self.tok is not None:
            return self.tok
        return None

    def fresh(self, st, tag):
        n = sum(1 for x in st.trace if x[0] == "fresh")
        st.trace.append(("fresh", tag, n))
        return ("fresh", tag, n)

    def unknown(self, callee, args, st, t, fn):
        c = self.prog.fns.get(callee)
        if c is not None and c.id in self.rec:
            a = [self.deep(st, x) for x, ty in zip(args, c.locals[1:]) if self.prog.types[ty]["k"] != "ref"
                 or not self.is_self(c, ty)]
            a = tuple(a)
            st.trace.append(("rec", c.id) + a)
            yield st, ("rec", "walk") + a
            return
        if c is not None and c.id in self.closed:
            a = tuple(self.deep(st, x) for x in args[1:])
            st.trace.append(("closed", c.id) + a)
            yield st, ("call", short(c.id)) + a
            return
        if c is not None and syntax_fn(c) and len(args) == 1:
            x = self.deep(st, args[0])
            n = short(c.id)
            if n == "syntax":
                while x[0] == "adt" and x[1].startswith(PRE) and x[3]:
                    x = x[3][0]
            yield st, ("acc", n, x)
            return
        if c is not None and self.prog.tstr(c.locals[0]) == "ticc_core::ir::Name" and c.crate == "ticc_core":
            yield st, self.fresh(st, "name")
            return
        yield from super().unknown(callee, args, st, t, fn)

    def is_self(self, c, ty):
        return ty == c.locals[1] and self.prog.adt_of(ty) not in (EXPR,)

    def std(self, name, d, args, st, t, fn, depth):
        if name in ("insert", "get", "get_mut", "index", "contains_key", "remove") and args and "HashMap" in d or \
                name == "index" and "HashMap" in (t["f"].get("r") or ""):
            m = self.deep(st, args[0])
            if name == "insert":
                st.trace.append(("insert", m, self.deep(st, args[1]), self.deep(st, args[2])))
                return [(st, ("call", "insert", m, self.deep(st, args[1])))]
            k = self.deep(st, args[1])
            if name == "index":
                return [(st, ("at", m, k))]
            if name == "contains_key":
                return [(st, ("call", "contains", m, k))]
            if name in ("get", "get_mut"):
                return [(st, ("call", "get", m, k))]
        return super().std(name, d, args, st, t, fn, depth)


def name_makers(prog):
    """the generators of fresh core names and type variables"""
    out = []
    for f in prog.fns.values():
        if f.crate == "ticc_core" and f.kind == "fn" and not f.trait and f.nargs >= 1 and \
                prog.tstr(f.locals[0]) in ("ticc_core::ir::Name", "ticc_core::ir::TyVar") and \
                prog.tstr(f.locals[1]).startswith("&mut ticc_core::ir::"):
            out.append(f)
    return out


def dispatcher(prog, crate, adt, result, least):
    """the function of the crate that switches on the enum and returns the type"""
    best = None
    for f in prog.fns.values():
        if f.crate != crate or f.kind != "fn" or f.derived or prog.adt_of(f.locals[0]) != result:
            continue
        s = trav.main_switch(prog, f, adt)
        if s and len(s[2]) >= least and (best is None or len(s[2]) > best[1]):
            best = (f, len(s[2]))
    return best[0] if best else None


class Gen(Syn):
    def __init__(self, prog, root, gen_ty, makers):
        super().__init__(prog, [root], [gen_ty] if gen_ty else [])
        self.makers = {f.id for f in makers}

    def opaque(self, fn, args):
        return fn.id in self.makers or super().opaque(fn, args)

    def unknown(self, callee, args, st, t, fn):
        if callee in self.makers:
            v = self.prog.tstr(self.prog.fns[callee].locals[0]).split("::")[-1]
            if v == "Name" and len(args) > 1:
                st.trace.append(("named", self.deep(st, args[1])))
            yield st, self.fresh(st, v)
            return
        yield from super().unknown(callee, args, st, t, fn)


def start(prog, root, it, adt, vi, value=None):
    args = []
    for i in range(1, root.nargs + 1):
        args.append(("adt", adt, vi, (E,)) if prog.adt_of(root.locals[i]) == adt else ("sym", "a%d" % i))
    return it.start(root, args)


def G(*path):
    def pred(t):
        return t[0] == "rec" and len(t) > 2 and part(t[2], E) == path
    return V(None, pred)


def ident(t, root=E):
    """the path p of id(syntax(p))"""
    if t[0] == "proj" and t[2] == 0:
        t = t[1]
    if t[0] == "acc" and t[1] == "id":
        x = t[2][2] if t[2][0] == "acc" and t[2][1] == "syntax" else t[2]
        return part(x, root)
    return None


def pis(prog, t):
    """strip type abstractions"""
    while t[0] == "adt" and t[1] == CEXPR and prog.adts[CEXPR]["variants"][t[2]]["n"] == "Pi":
        t = t[3][1]
    return t


def spellings(prog):
    """{token kind variant index: text} through to_str of the token kind"""
    fs = [f for f in prog.fns.values() if f.crate == "ticc_syntax" and f.kind == "fn" and f.nargs == 1 and
          prog.adt_of(f.locals[1]) == TOK and prog.types[prog.peel(f.locals[0])]["k"] == "str"]
    if len(fs) != 1:
        raise Anchor("spelling of token kinds")
    out = {}
    for vi, v in enumerate(prog.adts[TOK]["variants"]):
        it = Front(prog)
        r = it.start(fs[0], [("adt", TOK, vi, ())])
        if len(r) == 1 and r[0][1][0] == "s":
            s = r[0][1][1]
            out[vi] = s[1:-1] if s.startswith("`") else None
    return out


def lexer_tokens(prog):
    """{lexer variant: spelling} from the #[token(..)] attributes (macro input, not in the MIR)"""
    out = {}
    for d, a in prog.adts.items():
        if not (d.startswith("ticc::") and d.endswith("::TokenKind")):
            continue
        path = os.path.join(build.REPO, "ticc", "src", *d.split("::")[1:-1]) + ".rs"
        if os.path.exists(path):
            for m in re.finditer(r'#\[token\(\s*(r?)"((?:[^"\\]|\\.)*)"\s*\)\]\s*([A-Za-z]\w*)', open(path).read()):
                s = m.group(2) if m.group(1) else m.group(2).replace("\\\\", "\\")
                out[m.group(3)] = s
            return d, out
    raise Anchor("lexer token kinds")


def run(prog, rep):
    root = dispatcher(prog, "ticc", EXPR, CEXPR, 8)
    if root is None:
        raise Anchor("code generator of expressions")
    gen_ty = dispatcher(prog, "ticc", "ticc::compiler::ir::Type", "ticc_core::ir::Ty", 4)
    makers = name_makers(prog)
    text = spellings(prog)
    forms = judge_expr(prog, rep, root, gen_ty, makers, text)
    rep.floor("source forms and operators translated", forms, 24)
    judge_tokens(prog, rep, text)
    judge_precedence(prog, rep, text)
    rep.floor("builtin functions", judge_builtins(prog, rep, root, gen_ty, makers), 6)
    judge_pretty(prog, rep)
    names = bytecode_names(prog)
    ops = [v["n"] for v in prog.adts[COP]["variants"]] + [v["n"] for v in prog.adts[CINTR]["variants"]]
    for n in ops:
        rep.ob(n in names, "compile: " + n, "is not compiled to one bytecode instruction")
    rep.ob(len({names.get(n) for n in ops}) == len(ops), "compile: distinct instructions",
           "two operations are compiled to the same instruction")
    rep.floor("operations compiled to bytecode", len(names), 17)


def judge_expr(prog, rep, root, gen_ty, makers, text):
    adt = prog.adts[EXPR]
    n = 0
    where = root.loc()
    lookup = []      # (map of names, map of symbols) of plain names
    binders = []     # (key, state, path, binder term, body paths)
    folds = {}

    def outcomes(vi, tok=None):
        it = Gen(prog, root, gen_ty, makers)
        it.tok = tok
        res = [(st, it.deep(st, v)) for st, v in start(prog, root, it, EXPR, vi)]
        return it, res

    for vi, v in enumerate(adt["variants"]):
        name = v["n"]
        key = "%s: %s" % (root.id, name)
        if name == "Binary":
            for ti, sp in sorted(text.items()):
                if sp not in OPS:
                    continue
                n += 1
                it, res = outcomes(vi, ti)
                core, _ = OPS[sp]
                if core is None:
                    pat = P("Call", G("rhs"), L(G("lhs")))
                else:
                    pat = P("Op", G("lhs"), P(core), G("rhs"))
                rep.ob(bool(res), "%s `%s`" % (key, sp), "is not translated", where)
                for st, t in res:
                    rep.ob(match(prog, pat, t, {}), "%s `%s`" % (key, sp), "is translated to " + show(prog, t)[:200], where)
            continue
        n += 1
        if name == "Bool":
            for ti, v2 in enumerate(prog.adts[TOK]["variants"]):
                if text.get(ti) not in ("true", "false"):
                    continue
                it, res = outcomes(vi, ti)
                want = ("c", int(text[ti] == "true"))
                rep.ob(bool(res), "%s %s" % (key, text[ti]), "is not translated", where)
                for st, t in res:
                    rep.ob(match(prog, P("Bool", V(None, lambda x: x == want)), t, {}), "%s %s" % (key, text[ti]),
                           "is translated to " + show(prog, t)[:200], where)
            continue
        it, res = outcomes(vi)
        rep.ob(bool(res), key, "no path translates it", where)
        for st, t in res:
            env = {}
            ok = True
            if name in ("Name", "NamespacedName"):
                x = t
                while match(prog, P("PiApply", ANY, ANY), x, {}):
                    x = x[3][0]
                ok = match(prog, P("Name", V("n")), x, env) and env["n"][0] == "at" and env["n"][2][0] == "at" and \
                    ident(env["n"][2][2]) == ("name",)
                if ok:
                    lookup.append((env["n"][1], env["n"][2][1]))
                if x is not t:
                    ok = ok and t[3][1][0] == "call" and any(ident(y) == ("name",) for y in terms(t[3][1]))
            elif name == "Apply":
                ok = match(prog, P("Call", G("function"), L(G("arg"))), t, env)
            elif name == "Let":
                ok = match(prog, P("Let", V("x"), ANY, G("rest")), t, env) and G("value").pred(pis(prog, t[3][1]))
                if ok:
                    binders.append((key, st, ("name",), env["x"], [("rest",)]))
            elif name == "Match":
                ok = match(prog, P("Match", G("discr"), V("b")), t, env)
                bs = items(env["b"]) if ok else None
                ok = ok and bs is not None
                for b in bs or ():
                    e2 = {}
                    ok = ok and match(prog, P("Branch", V("c"), V("vs"), G("cases", "body")), b, e2)
                    if not ok:
                        break
                    c = e2["c"]
                    ok = ok and c[0] == "proj" and c[1][0] == "at" and c[1][2][0] == "at" and \
                        ident(c[1][2][2]) == ("cases", "ctor")
                    vs = items(e2["vs"])
                    ok = ok and vs is not None
                    for x in vs or ():
                        binders.append((key, st, ("cases", "vars", "vars"), x, [("cases", "body")]))
                    if ok:
                        folds.setdefault(is_folded(prog, st, ("discr",)), set()).add(c[2])
            elif name == "If":
                ok = match(prog, P("If", G("cond"), G("then_value"), G("else_value")), t, env)
            elif name == "Number":
                ok = match(prog, P("Int", V("n")), t, env) and is_parse(env["n"])
            elif name == "String":
                ok = match(prog, P("String", V("s")), t, env) and is_inner(env["s"])
            elif name == "Lambda":
                if match(prog, P("LetRec", ANY, ANY, ANY, ANY), t, {}):
                    ok, why = fold_form(prog, t, st, binders, key, folds)
                else:
                    ok = match(prog, P("Lambda", L(P("LambdaParam", V("x"), ANY)), G("body")), t, env)
                    if ok:
                        binders.append((key, st, ("param",), env["x"], [("body",)]))
            elif name == "Paren":
                ok = G("inner").pred(t)
            elif name == "Hole":
                # what it says: C21
                ok = match(prog, P("Trap", V("m"), V("t")), t, env) and any(ident(x) == () for x in terms(env["t"]))
            rep.ob(ok, key, "is translated to " + show(prog, t)[:300], where)
        if name == "Lambda":
            rep.ob(any(match(prog, P("LetRec", ANY, ANY, ANY, ANY), t, {}) for _, t in res), key + " fold",
                   "fold lambdas are not translated to a recursion", where)
    maps = set(lookup)
    rep.ob(len(maps) == 1, root.id + ": names", "names are looked up in %d different ways" % len(maps), where)
    for key, st, path, x, bodies in binders:
        ins = [(i, e) for i, e in enumerate(st.trace) if e[0] == "insert" and e[3] == x and e[2][0] == "at" and
               ident(e[2][2]) == path and (strip_upd(e[1]), strip_upd(e[2][1])) in {(strip_upd(a), strip_upd(b))
                                                                                 for a, b in maps}]
        ok = x[0] == "fresh" and x[1] == "Name" and bool(ins)
        rep.ob(ok, "%s binder %s" % (key, ".".join(path)), "the bound name is not a fresh one entered for its symbol", where)
        if ok:
            late = [b for b in bodies if any(e[0] == "rec" and part(e[2], E) == b for e in st.trace[:ins[0][0]])]
            rep.ob(not late, "%s binder %s before use" % (key, ".".join(path)),
                   "the scope of the name is translated before the name is entered", where)
    # a match on a folded value uses the folded constructors, fold builds what is matched there
    want = folds.get("fold", set())
    rep.ob(len(folds.get(True, ())) == 1 and len(folds.get(False, ())) == 1 and
           want == {(min(folds[False]), min(folds[True]))}, root.id + ": folded constructors",
           "matching uses constructors %s, folding builds %s" % ({k: v for k, v in folds.items() if k != "fold"}, want), where)
    return n


def strip_upd(t):
    while t[0] == "upd":
        t = t[1]
    if t[0] == "proj":
        return ("proj", strip_upd(t[1]), t[2])
    return t


def terms(t, out=None):
    out = [] if out is None else out
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str):
            out.append(t)
        for x in t:
            if isinstance(x, tuple):
                terms(x, out)
    return out


def is_parse(t):
    if t[0] == "proj":
        while t[0] == "proj":
            t = t[1]
    return t[0] == "call" and t[1] in ("parse", "from_str", "from_str_radix") and \
        t[2] == ("acc", "text", ("acc", "token", E)) and (len(t) < 4 or t[3] == ("c", 10))


def is_inner(t):
    """the text of the token without its quotes"""
    x = ("acc", "text", ("acc", "token", E))
    if t[0] == "at" or t[0] == "call" and t[1] == "index":
        s, r = (t[1], t[2]) if t[0] == "at" else (t[2], t[3])
        ln = ("call", "len", x)
        return s == x and r[0] == "adt" and short(r[1]) == "Range" and r[3][0] == ("c", 1) and \
            r[3][1] == ("bin", "Sub", ln, ("c", 1))
    return False


def is_folded(prog, st, path):
    ty = prog.adts["ticc::compiler::ir::Type"]["variants"]
    fi = next(i for i, v in enumerate(ty) if v["n"] == "Folded")
    for k, f in st.facts.items():
        if k[0] == "call" and k[1] == "discr" and any(ident(x) == path for x in terms(k)):
            if isinstance(f, int):
                d = int(ty[fi]["discr"])
                return f == d
            return False if fi in f else None
    return None


def fold_form(prog, t, st, binders, key, folds):
    env = {}
    pat = P("LetRec", V("f"), ANY, P("Lambda", L(P("LambdaParam", V("x"), ANY)), P("Let", V("p"), V("v"), G("body"))),
            P("Name", V("f")))
    if not match(prog, pat, t, env):
        return False, "shape"
    binders.append((key, st, ("param",), env["p"], [("body",)]))
    v = env["v"]
    if env["f"][0] != "fresh" or env["x"][0] != "fresh" or env["x"] == env["f"]:
        return False, "names"
    if match(prog, P("Name", V("x")), v, {"x": env["x"]}):
        return True, ""
    e2 = {"x": env["x"]}
    if not match(prog, P("Match", P("Name", V("x")), V("b")), v, e2):
        return False, "match"
    for b in items(e2["b"]) or ():
        e3 = {}
        if not match(prog, P("Branch", V("c"), V("vs"), P("Construct", V("k"), ANY, V("fs"))), b, e3):
            return False, "branch"
        c, k = e3["c"], e3["k"]
        if c[0] != "proj" or k[0] != "proj" or c[1] != k[1] or c[1][0] != "elem":
            return False, "ctor"
        folds.setdefault("fold", set()).add((c[2], k[2]))
        vs, fs = items(e3["vs"]), items(e3["fs"])
        if vs is None or fs is None or len(vs) != len(fs):
            return False, "fields"
        for x, y in zip(vs, fs):
            rec = None
            for kf, f in st.facts.items():
                if kf[0] == "call" and kf[1] == "discr" and any(z[0] == "elem" for z in terms(kf[2])) and \
                        "fields" or False:
                    pass
            recur = match(prog, P("Call", P("Name", V("f")), L(P("Name", V("b")))), y, {"f": env["f"], "b": x})
            plain = match(prog, P("Name", V("b")), y, {"b": x})
            if not recur and not plain:
                return False, "field"
            fld = field_kind(prog, st)
            if fld is not None and fld != ("Rec" if recur else "Type"):
                return False, "field kind"
    return True, ""


def field_kind(prog, st):
    d = "ticc::compiler::ir::Field"
    a = prog.adts.get(d)
    for k, f in st.facts.items():
        if k[0] == "call" and k[1] == "discr" and k[2][0] == "elem" and isinstance(f, int):
            m = trav.discr_map(prog, d)
            if f in m and k[2][1][0] == "at" or k[2][1][0] == "proj":
                return a["variants"][m[f]]["n"]
    return None


def judge_tokens(prog, rep, text):
    """source spelling -> token of the lexer -> token of the syntax tree, which spells the same"""
    ladt, toks = lexer_tokens(prog)
    cls = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and f.nargs == 1 and not f.derived and
           prog.adt_of(f.locals[1]) == ladt and not f.trait and trav.main_switch(prog, f, ladt) and
           len(trav.main_switch(prog, f, ladt)[2]) > 20]
    if len(cls) != 1:
        raise Anchor("classification of lexer tokens")
    for vi, v in enumerate(prog.adts[ladt]["variants"]):
        if v["n"] not in toks:
            continue
        it = Front(prog)
        r = it.start(cls[0], [("adt", ladt, vi, ())])
        got = None
        if len(r) == 1:
            ks = [x for x in terms(it.deep(*r[0])) if x[0] == "adt" and x[1] == TOK]
            got = text.get(ks[0][2]) if len(ks) == 1 else None
        rep.ob(got == toks[v["n"]], "%s: `%s`" % (cls[0].id, toks[v["n"]]), "is classified as %s" % got, cls[0].loc())
    rep.floor("tokens with a fixed spelling", len(toks), 35)
    for sp in list(OPS) + ["true", "false"]:
        rep.ob(sp in toks.values(), "lexer: `%s`" % sp, "is not a token")


def judge_precedence(prog, rep, text):
    """binding powers: levels, left associativity; the climbing loop uses them"""
    bps = []
    for f in prog.fns.values():
        if f.crate == "ticc" and f.kind == "fn" and f.nargs == 1 and prog.adt_of(f.locals[1]) == TOK and not f.derived:
            s = prog.tstr(f.locals[0])
            if s.startswith("core::option::Option<("):
                bps.append(f)
    if len(bps) != 1:
        raise Anchor("binding powers")
    bp = bps[0]
    pw = {}
    for vi, v in enumerate(prog.adts[TOK]["variants"]):
        it = Front(prog)
        r = it.start(bp, [("adt", TOK, vi, ())])
        sp = text.get(vi)
        val = it.deep(*r[0]) if len(r) == 1 else None
        if sp in OPS:
            ok = val is not None and val[0] == "adt" and val[2] == 1 and val[3][0][0] == "tup" and \
                all(x[0] == "c" for x in val[3][0][1])
            rep.ob(ok, "%s: `%s`" % (bp.id, sp), "is not a binary operator", bp.loc())
            if ok:
                pw[sp] = tuple(x[1] for x in val[3][0][1])
        else:
            rep.ob(val is not None and val[0] == "adt" and val[2] == 0, "%s: %s" % (bp.id, v["n"]),
                   "is taken for a binary operator", bp.loc())
    for a in pw:
        for b in pw:
            la, lb = OPS[a][1], OPS[b][1]
            # after `x a y`, seeing b: y goes to b iff left power of b >= right power of a
            inner = pw[b][0] >= pw[a][1]
            rep.ob(inner == (lb > la), "precedence: `%s` then `%s`" % (a, b),
                   "x %s y %s z groups %s" % (a, b, "to the right" if inner else "to the left"), bp.loc())
    rep.floor("operators with a binding power", len(pw), 12)
    # the climbing function
    cl = [prog.fns[x] for x in prog.rcg()[bp.id] if x in prog.fns]
    fns = set()
    for f in cl:
        fns.add(f.id.split("::{closure")[0])
    fns = [prog.fns[x] for x in fns if x in prog.fns]
    rep.ob(len(fns) == 1, "operator loop", "binding powers are used by %s" % [f.id for f in fns])
    for f in fns:
        it = Climb(prog, f, bp)
        args = [("sym", "a%d" % i) for i in range(1, f.nargs + 1)]
        mins = [i for i in range(f.nargs) if prog.types[f.locals[i + 1]]["s"] in ("u32", "usize", "u8", "u64", "i32")]
        if len(mins) != 1:
            rep.ob(False, f.id + ": least power", "no single numeric parameter", f.loc())
            continue
        args[mins[0]] = ("sym", "min")
        outs = it.start(f, args)
        n = 0
        for st in [s for s, _ in outs] + [s for s, _, _ in it.loops]:
            pws = [x for x in st.trace if x[0] == "power"]
            recs = [x for x in st.trace if x[0] == "climb"]
            for i, r in enumerate(recs):
                n += 1
                left, right = ("left",), ("right",)
                rep.ob(r[1] == ("sym", "right"), f.id + ": right operand",
                       "is parsed with least power %s" % (r[1],), f.loc())
                below = r[2]
                rep.ob(below is False, f.id + ": weaker operator",
                       "is taken although its power is below the least", f.loc())
        rep.ob(n > 0, f.id + ": right operand", "is not parsed by the same function", f.loc())
        # stops only for weaker operators
        stops = [s for s, _ in outs if any(x[0] == "power" for x in s.trace) and not any(x[0] == "climb" for x in s.trace)]
        rep.ob(all(weak(s) is True for s in stops), f.id + ": stop", "an operator of sufficient power is not taken", f.loc())
        for g in prog.fns.values():
            for b, t in g.calls():
                if any(x.id == f.id for x in prog.targets(t)) and g.id != f.id:
                    v = t["args"][mins[0]]
                    k = v.get("k", {}).get("v")
                    rep.ob(k is not None and int(k) <= min(p[0] for p in pw.values()), "%s: expression" % g.id,
                           "starts with least power %s" % k, g.loc())


def weak(st):
    """was the operator's left power below the least?"""
    for k, f in st.facts.items():
        if k[0] == "bin" and {("sym", "left"), ("sym", "min")} == {k[2], k[3]} and isinstance(f, int):
            op = k[1] if k[2] == ("sym", "left") else {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(k[1], k[1])
            if op == "Lt":
                return bool(f)
            if op == "Ge":
                return not f
            return None
    return None


class Climb(Front):
    def __init__(self, prog, root, bp):
        super().__init__(prog)
        self.root, self.bp = root, bp

    def opaque(self, fn, args):
        return True

    def model(self, name, callee, args, st, t, fn):
        if callee == self.bp.id:
            s0 = st.copy()
            st.trace.append(("power",))
            return [(st, some(("tup", (("sym", "left"), ("sym", "right"))))), (s0, ("adt", "core::option::Option", 0, ()))]
        if callee == self.root.id:
            a = [self.deep(st, x) for x in args]
            st.trace.append(("climb", a[-1] if len(a) > 1 else None, weak(st)))
            return [(st, ("tup", ()))]
        return None


def judge_builtins(prog, rep, root, gen_ty, makers):
    """builtin name -> field of the table of builtin symbols -> primitive applied to the parameters"""
    tabs = [d for d, a in prog.adts.items() if d.startswith("ticc::") and a["kind"] == "struct" and
            len(a["variants"][0]["f"]) >= 6 and
            all(prog.adt_of(f["t"]) == "ticc::compiler::ir::Symbol" for f in a["variants"][0]["f"])]
    if len(tabs) != 1:
        raise Anchor("table of builtin symbols")
    tab = tabs[0]
    fill = [f for f in prog.fns.values() if f.kind == "fn" and any(
        st[1][0] == "agg" and st[1][1].get("d") == tab for b in f.reach([0]) for st in f.blocks[b]["s"]) and not f.derived]
    if len(fill) != 1:
        raise Anchor("filling of the table of builtin symbols")
    it = Fill(prog)
    field = {}
    for st, v in it.start(fill[0], [("sym", "a%d" % i) for i in range(1, fill[0].nargs + 1)]):
        v = it.deep(st, v)
        for k, f in st.facts.items():
            if f == 1 and k[0] == "bin" and k[1] == "Eq":
                s = [x for x in (k[2], k[3]) if x[0] == "s"]
                if s and v[0] == "adt" and v[1] == tab:
                    hit = [i for i, x in enumerate(v[3]) if x != ("sym", "missing")]
                    field.setdefault(s[0][1], set()).add(tuple(hit))
    n = 0
    gi = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and root.id in prog.cg()[f.id] and
          f.id != root.id and PRE + "ValueItem" in [prog.adt_of(x) for x in f.locals[1:f.nargs + 1]]]
    if len(gi) != 1:
        raise Anchor("code generator of value items")
    it = Gen(prog, root, gen_ty, makers)
    args = [E if prog.adt_of(x) == PRE + "ValueItem" else ("sym", "a%d" % i) for i, x in
            enumerate(gi[0].locals[1:gi[0].nargs + 1])]
    by = {}
    plain = []
    for st, v in it.start(gi[0], args):
        k = chosen(prog, st, tab)
        vals = []
        for root_, x in st.env.items():
            for y in terms(x):
                if y[0] == "adt" and y[1] == "ticc_core::ir::ValueDef":
                    vals.append(it.deep(st, y))
        vals += [it.deep(st, y) for e in st.trace for x in e if isinstance(x, tuple) for y in terms(x)
                 if y[0] == "adt" and y[1] == "ticc_core::ir::ValueDef"]
        fi = [i for i, f in enumerate(prog.adts["ticc_core::ir::ValueDef"]["variants"][0]["f"]) if
              prog.adt_of(f["t"]) == CEXPR][0]
        for vd in {repr(x): x for x in vals}.values():
            if k is None:
                plain.append(pis(prog, vd[3][fi]))
            else:
                by.setdefault(k, []).append(vd[3][fi])
    rep.ob(bool(plain) and all(G("expr").pred(x) for x in plain), gi[0].id + ": value",
           "an item's value is not the translation of its expression", gi[0].loc())
    for name, (prim, sig) in BUILTINS.items():
        n += 1
        fs = field.get(name, set())
        one = len(fs) == 1 and len(min(fs)) == 1
        rep.ob(one, "builtin %s: symbol" % name, "is not stored in one place", fill[0].loc())
        if not one:
            continue
        k = min(fs)[0]
        vs = by.get(k, [])
        rep.ob(bool(vs), "builtin %s: code" % name, "has no code of its own", gi[0].loc())
        for v in vs:
            ps = [V("p%d" % i) for i in range(len(sig))]
            pat = P("Intrinsic", P(prim), L(*[P("Name", p) for p in ps]))
            for p, s in list(zip(ps, sig))[::-1]:
                pat = P("Lambda", L(P("LambdaParam", p, P("Int" if s == "i" else "String"))), pat)
            env = {}
            ok = match(prog, pat, v, env) and len(set(env.values())) == len(sig)
            rep.ob(ok, "builtin %s: code" % name, "is " + show(prog, v)[:200], gi[0].loc())
    fs = field.get("iterate", set())
    one = len(fs) == 1 and len(min(fs)) == 1
    rep.ob(one, "builtin iterate: symbol", "is not stored in one place", fill[0].loc())
    n2, x2, f, x, nn, go = V("n2"), V("x2"), V("f"), V("x"), V("n"), V("go")
    body = P("If", P("Op", P("Name", n2), P("LessEq"), P("Int", V(None, lambda t: t == ("c", 0)))), P("Name", x2),
             P("Call", P("Name", go), L(P("Op", P("Name", n2), P("Subtract"), P("Int", V(None, lambda t: t == ("c", 1)))),
                                       P("Call", P("Name", f), L(P("Name", x2))))))
    pat = P("Lambda", L(P("LambdaParam", nn, ANY)), P("Lambda", L(P("LambdaParam", f, ANY)), P("Lambda",
            L(P("LambdaParam", x, ANY)), P("LetRec", go, ANY, P("Lambda", L(P("LambdaParam", n2, ANY),
                                                                      P("LambdaParam", x2, ANY)), body),
                                           P("Call", P("Name", go), L(P("Name", nn), P("Name", x)))))))
    for v in by.get(min(fs)[0], []) if one else ():
        env = {}
        ok = match(prog, pat, pis(prog, v), env) and len(set(env.values())) == 6
        rep.ob(ok, "builtin iterate: code", "is " + show(prog, v)[:300], gi[0].loc())
    rep.ob(one and bool(by.get(min(fs)[0])), "builtin iterate: present", "has no code", gi[0].loc())
    return n


class Fill(Front):
    def std(self, name, d, args, st, t, fn, depth):
        if name in ("unwrap", "expect") and args:
            v = self.deref(st, args[0])
            if v[0] == "adt" and v[1] == "core::option::Option" and v[2] == 0:
                return [(st, ("sym", "missing"))]
        return super().std(name, d, args, st, t, fn, depth)

    def opaque(self, fn, args):
        return "ticc::compiler::ir::Symbol" not in self.prog.tstr(fn.locals[0])


def chosen(prog, st, tab):
    """index of the builtin symbol the item's symbol was found equal to"""
    for k, f in st.facts.items():
        if f == 1 and k[0] == "bin" and k[1] == "Eq":
            x, y = k[2], k[3]
            if x[0] == y[0] == "proj" and x[2] == y[2] == 0:
                x, y = x[1], y[1]
            for x, y in ((x, y), (y, x)):
                if any(z[0] == "at" for z in terms(y)) and not any(z[0] == "at" for z in terms(x)) and \
                        x[0] == "proj" and isinstance(x[2], int):
                    return x[2]
    return None


def judge_pretty(prog, rep):
    """operators are printed as they are spelled, left operand first"""
    want = {v[0]: k for k, v in OPS.items() if v[0]}
    want_i = {"StringLen": "%stringLen", "StringConcat": "%stringConcat", "StringCharAt": "%stringCharAt",
              "StringSubstring": "%stringSubstring", "StringFromChar": "%stringFromChar", "IntToString": "%intToString"}
    pr = [f for f in prog.fns.values() if f.crate == "ticc_core" and f.kind == "fn" and not f.derived and
          (trav.main_switch(prog, f, CEXPR) or (0, 0, {}))[2] and prog.tstr(f.locals[0]) == "()" and
          len(trav.main_switch(prog, f, CEXPR)[2]) >= 12 and
          any("formatter" in x for x in prog.cg()[f.id])]
    if len(pr) != 1:
        raise Anchor("printer of expressions")
    f = pr[0]
    vs = {v["n"]: i for i, v in enumerate(prog.adts[CEXPR]["variants"])}
    n = 0
    for adt, table in ((COP, want), (CINTR, want_i)):
        for oi, o in enumerate(prog.adts[adt]["variants"]):
            it = Print(prog, f)
            if adt == COP:
                e = ("adt", CEXPR, vs["Op"], (("sym", "A"), ("adt", COP, oi, ()), ("sym", "B")))
            else:
                e = ("adt", CEXPR, vs["Intrinsic"], (("adt", CINTR, oi, ()), ("arr", (("sym", "A"),))))
            args = [e if prog.adt_of(f.locals[i]) == CEXPR else ("sym", "a%d" % i) for i in range(1, f.nargs + 1)]
            seqs = set()
            for st, _ in it.start(f, args):
                seqs.add(tuple(x[1] for x in st.trace if x[0] == "out"))
            for s in seqs:
                n += 1
                got = [x for x in s if x in (("sym", "A"), ("sym", "B")) or x[0] == "s" and x[1] not in ("(", ")", ",")]
                sp = table.get(o["n"])
                exp = [("sym", "A"), ("s", sp), ("sym", "B")] if adt == COP else [("s", sp)]
                rep.ob(got[:len(exp)] == exp and (adt == CINTR or len(got) == 3), "%s: %s" % (f.id, o["n"]),
                       "is printed as %s" % " ".join(str(x[1]) for x in got), f.loc())
    rep.floor("printed operators", n, 17)


class Print(Front):
    loop_bound = 1

    def __init__(self, prog, root):
        super().__init__(prog)
        self.root = root

    def opaque(self, fn, args):
        return fn.id == self.root.id or fn.crate != "ticc_core"

    def model(self, name, callee, args, st, t, fn):
        if callee == self.root.id:
            for a in args:
                v = self.deep(st, a)
                if v[0] in ("sym", "elem") and v != ("sym", "a1"):
                    st.trace.append(("out", v))
                    break
            return [(st, ("tup", ()))]
        if callee and callee.startswith("formatter::"):
            for a in args[1:]:
                v = self.deep(st, a)
                if v[0] == "s":
                    st.trace.append(("out", v))
            return [(st, ("tup", ()))]
        return None


# ---- bytecode
def bytecode_names(prog):
    """{core operation or intrinsic (and PushBool): bytecode instruction} by composing the compiler's
    and the linker's tables"""
    cop, bop = "ticc_eval::compile::Op", "ticc_eval::bytecode::Op"
    if cop not in prog.adts or bop not in prog.adts:
        raise Anchor("instruction enums")
    comp = compile_table(prog, cop)
    link = link_table(prog, cop, bop)
    out = {}
    for n, c in comp.items():
        if c in link:
            out[n] = link[c]
    return out


def compile_table(prog, cop):
    f = dispatcher_of(prog, "ticc_eval", CEXPR, lambda g: prog.tstr(g.locals[0]) == "()" and any(
        x[1][0] == "agg" and x[1][1].get("d") == cop for b in g.reach([0]) for x in g.blocks[b]["s"]))
    vs = {v["n"]: i for i, v in enumerate(prog.adts[CEXPR]["variants"])}
    out = {}
    cases = [("Op", COP, i, v["n"]) for i, v in enumerate(prog.adts[COP]["variants"])] + \
            [("Intrinsic", CINTR, i, v["n"]) for i, v in enumerate(prog.adts[CINTR]["variants"])] + \
            [("Bool", None, 0, "PushBool")]
    for form, adt, i, n in cases:
        if form == "Op":
            e = ("adt", CEXPR, vs[form], (("sym", "A"), ("adt", adt, i, ()), ("sym", "B")))
        elif form == "Intrinsic":
            e = ("adt", CEXPR, vs[form], (("adt", adt, i, ()), ("arr", (("sym", "A"),))))
        else:
            e = ("adt", CEXPR, vs[form], (("sym", "A"),))
        it = Emit(prog, f, cop)
        args = [e if prog.adt_of(f.locals[k]) == CEXPR else ("sym", "a%d" % k) for k in range(1, f.nargs + 1)]
        got = {tuple(x[1] for x in st.trace if x[0] == "emit") for st, _ in it.start(f, args)}
        if len(got) == 1 and len(min(got)) == 1:
            out[n] = min(got)[0]
    return out


def dispatcher_of(prog, crate, adt, pred):
    c = [f for f in prog.fns.values() if f.crate == crate and f.kind == "fn" and not f.derived and
         len((trav.main_switch(prog, f, adt) or (0, 0, {}))[2]) >= 10 and pred(f)]
    if len(c) != 1:
        raise Anchor("one function over %s in %s, found %d" % (adt, crate, len(c)))
    return c[0]


class Emit(Front):
    def __init__(self, prog, root, op):
        super().__init__(prog)
        self.root, self.op = root, op

    def opaque(self, fn, args):
        return fn.id == self.root.id

    def model(self, name, callee, args, st, t, fn):
        if callee == self.root.id:
            return [(st, ("tup", ()))]
        if name == "push" and len(args) == 2:
            v = self.deep(st, args[1])
            if v[0] == "adt" and v[1] == self.op:
                st.trace.append(("emit", self.prog.adts[self.op]["variants"][v[2]]["n"]))
                return [(st, ("tup", ()))]
        return None


def link_table(prog, cop, bop):
    """instruction emitted for each compiler instruction, None when nothing is"""
    fs = [f for f in prog.fns.values() if f.crate == "ticc_eval" and f.kind == "fn" and not f.derived and
          f.id.startswith("ticc_eval::bytecode") and len((trav.main_switch(prog, f, cop) or (0, 0, {}))[2]) >= 15]
    if len(fs) != 1:
        raise Anchor("linker")
    f = fs[0]
    out = {}
    for vi, v in enumerate(prog.adts[cop]["variants"]):
        it = Link(prog, cop, bop, vi)
        got = set()
        for st, _ in it.start(f, [("sym", "a%d" % k) for k in range(1, f.nargs + 1)]):
            got.add(tuple(x[1] for x in st.trace if x[0] == "emit"))
        got.discard(())
        if len(got) == 1 and len(min(got)) == 1:
            out[v["n"]] = min(got)[0]
    return out


class Link(Front):
    def __init__(self, prog, cop, bop, vi):
        super().__init__(prog)
        self.cop, self.bop, self.vi = cop, bop, vi

    def variant(self, v, adt, st):
        return self.vi if adt == self.cop else None

    def opaque(self, fn, args):
        return True

    def model(self, name, callee, args, st, t, fn):
        if name == "push" and len(args) == 2:
            v = self.deep(st, args[1])
            if v[0] == "adt" and v[1] == self.bop:
                st.trace.append(("emit", self.prog.adts[self.bop]["variants"][v[2]]["n"]))
                return [(st, ("tup", ()))]
        return None
