"""C21: whole modules are translated to the core program they denote."""
from itertools import permutations
from ..mir import Anchor
from ..ast import PRE
from ..absint import short
from ..front import OPTION, NONE, some, RESULT
from ..text import lit, known
from ..maps import Maps
from ..irval import Values, IR
from .c04 import syntax_fn, TOK
from .c20 import one, UNIT

RULE = ("the program the code generator gives for known modules - type definitions with up to two parameters and every arrangement of fields, "
        "folds over every kind of type, matches, polymorphic values, holes, modules that import each other - is, up to names, the one they denote")
ASSUMPTIONS = ["the parts of a node are what its accessors return", "items are as resolution and type checking leave them (C02, C03, C11, C28)"]
CIR = "ticc::compiler::ir::"


class Gen(Maps):
    """the accessors of syntax nodes are answered from a table"""
    max_steps = 2000000

    def __init__(self, prog, table, intrinsics):
        super().__init__(prog)
        self.table, self.intrinsics = table, intrinsics

    def node(self, st, v):
        v = self.deref(st, v)
        while v[0] == "adt" and v[3]:
            v = self.deref(st, v[3][0])
        return v if v[0] in ("node", "tree") else None

    def opaque(self, fn, args):
        return syntax_fn(fn) and self.prog.tstr(fn.locals[0]) != "bool"

    def model(self, name, callee, args, st, t, fn):
        if self.intrinsics is not None and callee in self.prog.fns:
            c = self.prog.fns[callee]
            if c.nargs == 0 and self.prog.adt_of(c.locals[0]) == self.intrinsics[1]:
                return [(st, self.intrinsics)]
        n = self.node(st, args[0]) if args else None
        if n is not None and callee in self.prog.fns and (syntax_fn(self.prog.fns[callee]) or n[0] == "tree"):
            c = self.prog.fns[callee]
            ret = self.prog.adt_of(c.locals[0])
            if (n, name) in self.table:
                v = self.table[n, name]
                if ret == OPTION:
                    return [(st, NONE if v is None else v if v[:2] == ("adt", OPTION) else some(v))]
                return [(st, ("arr", ()) if v is None else v)]
            if n[0] == "tree":
                return None
            if name in ("syntax", "token"):
                return [(st, n)]
            if ret == OPTION:
                return [(st, NONE)]
            if self.prog.tstr(c.locals[0]) == "bool":
                return None
            if n[0] == "node":
                raise Anchor("no answer to %s of a node" % callee)
        return super().model(name, callee, args, st, t, fn)


class Mod:
    """a module: items as they are after type checking"""

    def __init__(self, w, key):
        self.w, self.key, self.items, self.spec = w, key, [], []


class W:
    """builds modules and what they denote"""

    def __init__(self, prog):
        self.prog, self.v = prog, Values(prog)
        self.table, self.count, self.syms = {}, 0, {}
        self.vi = {}
        for d in (CIR + "DefKind", CIR + "Type", CIR + "Field", CIR + "Visibility", PRE + "Expr", PRE + "Item"):
            self.vi[d] = {x["n"]: i for i, x in enumerate(prog.adts[d]["variants"])}
        self.tok = {x["n"]: i for i, x in enumerate(prog.adts[TOK]["variants"])}

    # ---- small values
    def sym(self, k):
        return ("adt", CIR + "Symbol", 0, (("c", self.syms.setdefault(k, len(self.syms) + 1)),))

    def enum(self, d, variant, **vals):
        fs = self.prog.adts[d]["variants"][self.vi[d][variant]]["f"]
        return ("adt", d, self.vi[d][variant], tuple(vals.get(f["n"], ("sym", f["n"])) for f in fs))

    def tuplike(self, d, variant, *xs):
        return ("adt", d, self.vi[d][variant], tuple(xs))

    def new(self, **acc):
        self.count += 1
        n = ("node", self.count)
        self.nodes += 1
        self.table[n, "id"] = ("adt", "ticc_syntax::NodeId", 0, (("c", self.nodes),))
        for k, x in acc.items():
            self.table[n, k] = x
        return n

    def wrap(self, d, n):
        return ("adt", PRE + d, 0, (n,))

    def name(self, text):
        n = self.new(text=("s", text))
        return self.wrap("Name", n), self.table[n, "id"]

    def ty(self, t):
        k = t[0]
        if k == "Named":
            return self.tuplike(CIR + "Type", k, self.sym(t[1]), ("arr", tuple(self.ty(x) for x in t[2])))
        return self.tuplike(CIR + "Type", k, *[self.ty(x) for x in t[1:]])

    def definition(self, key, node, kind, vis="Local"):
        d = CIR + "Def"
        return self.v.struct(d, symbol=self.sym(key), node=node, kind=kind, vis=("adt", CIR + "Visibility", self.vi[CIR + "Visibility"][vis], ()),
                             has_name=("c", 1))

    def ref(self, key, node):
        return self.v.struct(CIR + "Ref", symbol=self.sym(key), node=node)

    def module(self, key, items):
        """(the compilation unit, what it denotes)"""
        out = []
        for it in items:
            self.defs, self.refs, self.types, self.insts, self.nodes = [], [], [], [], 0
            n = getattr(self, "item_" + it[0])(*it[1:])
            self.count += 1
            tree = ("tree", self.count)
            self.table[tree, "item"] = n
            pairs = lambda l: ("arr", tuple(("tup", x) for x in l))
            out.append(self.v.struct(CIR + "Item", syntax=tree, defs=("arr", tuple(self.defs)), refs=("arr", tuple(self.refs)),
                                     types=pairs(self.types), type_insts=pairs(self.insts), diagnostics=("arr", ())))
        k = ("adt", "ticc::ModuleKey", 0, (("c", key),))
        return self.v.struct(UNIT, key=k, items=("arr", tuple(out)))

    # ---- items
    def item_import(self, units, namespace=None):
        """units: [(key, unit)]: a definition of the module for each way it is imported"""
        n = self.new(name=None)
        for unit in units:
            x, i = self.name(namespace or "m")
            props = ("adt", "ticc::CompleteUnitProps", 0, tuple(
                unit if f["n"] == "unit" else ("arr", ()) for f in self.prog.adts["ticc::CompleteUnitProps"]["variants"][0]["f"]))
            kind = self.enum(CIR + "DefKind", "Module", unit=self.v.struct("ticc::CompleteUnit", props=props))
            self.defs.append(self.definition(("module", self.count), i, kind, "Module"))
        return self.tuplike(PRE + "Item", "Import", self.wrap("ImportItem", n))

    def item_type(self, name, params, cases, export=False):
        x, i = self.name(name)
        vis = "Export" if export else "Module"
        self.defs.append(self.definition(name, i, self.enum(CIR + "DefKind", "Type", param_count=("c", len(params)), is_var=("c", 0)), vis))
        ps = []
        for p in params:
            y, j = self.name(p)
            self.defs.append(self.definition(p, j, self.enum(CIR + "DefKind", "Type", param_count=("c", 0), is_var=("c", 1))))
            ps.append(y)
        cs = []
        for cname, fields in cases:
            y, j = self.name(cname)
            me = ("Named", name, [("Named", p, []) for p in params])
            fty = me
            for f in fields[::-1]:
                fty = ("Fn", me if f == "rec" else f, fty)
            fs = tuple(self.tuplike(CIR + "Field", "Rec") if f == "rec" else self.tuplike(CIR + "Field", "Type", self.ty(f)) for f in fields)
            kind = self.enum(CIR + "DefKind", "Ctor", type_symbol=self.sym(name), type_params=("arr", tuple(map(self.sym, params))),
                             fields=("arr", fs), fn_ty=self.ty(fty))
            self.defs.append(self.definition(cname, j, kind, vis))
            fn = []
            for f in fields:
                fn.append(self.tuplike(PRE + "Field", "Rec" if f == "rec" else "Type", self.wrap("RecField" if f == "rec" else "TypeField",
                                                                                               self.new()))
                          if PRE + "Field" in self.vi else ("sym", "field"))
            cs.append(self.wrap("TypeCase", self.new(name=y, fields=("arr", tuple(fn)))))
        acc = dict(name=x, cases=("arr", tuple(cs)))
        if params:
            acc["params"] = self.wrap("TypeParams", self.new(params=("arr", tuple(ps))))
        if export:
            acc["export_token"] = ("tok",)
        return self.tuplike(PRE + "Item", "Type", self.wrap("TypeItem", self.new(**acc)))

    def item_value(self, name, export, tvars, ty, e):
        x, i = self.name(name)
        self.values(name, i, tvars, ty, "Export" if export else "Module")
        for p in tvars:
            y, j = self.name(p)
            self.defs.append(self.definition(p, j, self.enum(CIR + "DefKind", "Type", param_count=("c", 0), is_var=("c", 1))))
        acc = dict(name=x, expr=self.expr(e))
        if export:
            acc["export_token"] = ("tok",)
        return self.tuplike(PRE + "Item", "Value", self.wrap("ValueItem", self.new(**acc)))

    def values(self, key, node, tvars, ty, vis="Local"):
        kind = self.enum(CIR + "DefKind", "Value", type_vars=("arr", tuple(map(self.sym, tvars))), ty=self.ty(ty))
        self.defs.append(self.definition(key, node, kind, vis))

    def bind(self, key, tvars, ty):
        x, i = self.name(key)
        self.values(key, i, tvars, ty)
        return x

    def use(self, key):
        x, i = self.name(key)
        self.refs.append(self.ref(key, i))
        return x, i

    # ---- expressions
    def expr(self, e, ty=None):
        k = e[0]
        acc = {}
        kind = {"name": "Name", "path": "NamespacedName", "app": "Apply", "op": "Binary", "let": "Let", "match": "Match", "if": "If",
                "bool": "Bool", "int": "Number", "str": "String", "lam": "Lambda", "fold": "Lambda", "paren": "Paren", "hole": "Hole"}[k]
        if k in ("name", "path"):
            acc["name"], i = self.use(e[1])
            self.insts.append((i, ("arr", tuple(self.ty(t) for t in e[2]))))
            if k == "path":
                acc["namespace"], _ = self.name("ns")
        elif k == "app":
            acc.update(function=self.expr(e[1]), arg=self.expr(e[2]))
        elif k == "op":
            op = self.wrap("BinaryOp", self.new(kind=("adt", TOK, self.tok[e[1]], ())))
            acc.update(lhs=self.expr(e[2]), op=op, rhs=self.expr(e[3]))
        elif k == "let":
            acc.update(name=self.bind(e[1], e[2], e[3]), value=self.expr(e[4]), rest=self.expr(e[5]))
        elif k == "match":
            cases = []
            discr = self.expr(e[1], e[2])
            for c, vs, b in e[3]:
                y, _ = self.use(c)
                a = dict(ctor=y)
                if vs:
                    a["vars"] = self.wrap("MatchVars", self.new(vars=("arr", tuple(self.bind(v, [], ("Int",)) for v in vs))))
                cases.append(self.wrap("MatchCase", self.new(body=self.expr(b), **a)))
            acc.update(discr=discr, cases=("arr", tuple(cases)))
        elif k == "if":
            acc.update(cond=self.expr(e[1]), then_value=self.expr(e[2]), else_value=self.expr(e[3]))
        elif k == "bool":
            acc["kind"] = ("adt", TOK, self.tok["True" if e[1] else "False"], ())
        elif k == "int":
            acc["text"] = ("s", str(e[1]))
        elif k == "str":
            acc["text"] = ("s", '"%s"' % e[1])
        elif k == "lam":
            acc.update(param=self.bind(e[1], [], e[2]), body=self.expr(e[3]))
        elif k == "fold":
            acc.update(param=self.bind(e[1], [], ("Folded", e[2], e[3])), body=self.expr(e[4]), fold_token=("tok",))
            ty = ("Fn", e[2], e[3])
        elif k == "paren":
            acc["inner"] = self.expr(e[1])
        elif k == "hole":
            acc["text"] = ("s", e[1])
            ty = e[2]
        n = self.new(**acc)
        if ty is not None:
            self.types.append((self.table[n, "id"], self.ty(ty)))
        return self.tuplike(PRE + "Expr", kind, self.wrap(kind + "Expr", n))


# ---- what modules denote: names are ("N", key), type variables ("V", key), both by identity
class Spec:
    def __init__(self):
        self.types, self.defs, self.data, self.seen = [], [], {}, set()

    def module(self, key, items, top):
        for it in items:
            if it[0] == "import":
                for k, its in it[3]:
                    if k not in self.seen:
                        self.seen.add(k)
                        self.module(k, its, False)
            elif it[0] == "type":
                self.type(*it[1:4])
            else:
                _, name, export, tvars, ty, e = it
                t, x = self.ty(ty), self.expr(e)
                for v in tvars[::-1]:
                    t, x = ("Abs", ("V", v), t), ("Pi", ("V", v), x)
                self.defs.append([("def", ("N", name), name, t, x, name if export and top else None)])

    def type(self, name, params, cases):
        self.data[name] = (params, cases)
        vs = [("V", p) for p in params]
        me = ("Named", ("N", name), [("Var", v) for v in vs])
        group = []
        for functor in (False, True):
            own, rec = (("N", "F " + name), ("Var", ("V", "rec"))) if functor else (("N", name), me)
            tag = lambda c: ("N", ("F " if functor else "C ") + c)
            self.types.append((own, name, vs + [("V", "rec")] * functor,
                               [(tag(c), c, [rec if f == "rec" else self.ty(f) for f in fs]) for c, fs in cases]))
        for c, fs in cases:
            ns = [("N", (c, i)) for i in range(len(fs))]
            tys = [me if f == "rec" else self.ty(f) for f in fs]
            e = ("Construct", ("N", "C " + c), [("Var", v) for v in vs], [("Name", n) for n in ns])
            t = me
            for n, ty in list(zip(ns, tys))[::-1]:
                e, t = ("Lambda", [(n, ty)], e), ("Fn", [ty], t)
            for v in vs[::-1]:
                e, t = ("Pi", v, e), ("Abs", v, t)
            group.append(("def", ("N", c), c, t, e, None))
        self.defs.append(group)

    def ty(self, t):
        k = t[0]
        if k == "Named":
            return ("Named", ("N", t[1]), [self.ty(x) for x in t[2]]) if t[1] in self.data else ("Var", ("V", t[1]))
        if k == "Fn":
            return ("Fn", [self.ty(t[1])], self.ty(t[2]))
        if k == "Infer":
            return ("Int",)
        if k == "Folded":
            if t[1][0] == "Named" and t[1][1] in self.data:
                return ("Named", ("N", "F " + t[1][1]), [self.ty(x) for x in t[1][2]] + [self.ty(t[2])])
            return self.ty(t[1])
        return (k,)

    OPS = {"Plus": "Add", "Minus": "Subtract", "Star": "Multiply", "Slash": "Divide", "Percent": "Modulo", "Less": "Less", "LessEq": "LessEq",
           "Greater": "Greater", "GreaterEq": "GreaterEq", "EqEq": "Equal", "NotEq": "NotEqual"}

    def expr(self, e):
        k = e[0]
        if k in ("name", "path"):
            x = ("Name", ("N", e[1]))
            for t in e[2]:
                x = ("PiApply", x, self.ty(t))
            return x
        if k == "app":
            return ("Call", self.expr(e[1]), [self.expr(e[2])])
        if k == "op":
            l, r = self.expr(e[2]), self.expr(e[3])
            return ("Call", r, [l]) if e[1] == "ArgPipe" else ("Op", l, (self.OPS[e[1]],), r)
        if k == "let":
            x = self.expr(e[4])
            for v in e[2][::-1]:
                x = ("Pi", ("V", v), x)
            return ("Let", ("N", e[1]), x, self.expr(e[5]))
        if k == "match":
            tag = "F " if e[2][0] == "Folded" else "C "
            return ("Match", self.expr(e[1]), [(("N", tag + c), [("N", v) for v in vs], self.expr(b)) for c, vs, b in e[3]])
        if k == "if":
            return ("If",) + tuple(map(self.expr, e[1:]))
        if k == "bool":
            return ("Bool", ("lit", ("c", int(e[1]))))
        if k == "int":
            return ("Int", ("lit", ("c", e[1])))
        if k == "str":
            return ("String", ("bytes", e[1]))
        if k == "lam":
            return ("Lambda", [(("N", e[1]), self.ty(e[2]))], self.expr(e[3]))
        if k == "paren":
            return self.expr(e[1])
        if k == "hole":
            return ("Trap", ("text", "encountered " + e[1]), self.ty(e[2]))
        # fold: let rec f = \tmp -> let param = (the node with the results of its parts) in body in f
        f, tmp = ("N", ("fold", id(e))), ("N", ("tmp", id(e)))
        a, b = self.ty(e[2]), self.ty(e[3])
        part = ("Name", tmp)
        if e[2][0] == "Named" and e[2][1] in self.data:
            args = [self.ty(x) for x in e[2][2]] + [b]
            brs = []
            for c, fs in self.data[e[2][1]][1]:
                ns = [("N", ("field", id(e), c, i)) for i in range(len(fs))]
                brs.append((("N", "C " + c), ns, ("Construct", ("N", "F " + c), args, [
                    ("Call", ("Name", f), [("Name", n)]) if x == "rec" else ("Name", n) for n, x in zip(ns, fs)])))
            part = ("Match", ("Name", tmp), brs)
        return ("LetRec", f, ("Fn", [a], b), ("Lambda", [(tmp, a)], ("Let", ("N", e[1]), part, self.expr(e[4]))), ("Name", f))


class Differs(Exception):
    pass


class Same:
    """whether a value of the representation is the expected one, up to names"""

    def __init__(self, prog):
        self.prog = prog
        self.fwd, self.bwd = {}, {}

    def no(self, why):
        raise Differs(why)

    def name(self, n, v):
        i = v[3][0] if v[0] == "adt" else v
        if self.fwd.setdefault(n[1], i) != i or self.bwd.setdefault(i, n[1]) != n[1]:
            self.no("another name is meant than %s" % (n[1],))

    def tag(self, d, v, k):
        if v[0] != "adt" or v[1] != IR + d:
            self.no("no known %s" % d)
        got = self.prog.adts[v[1]]["variants"][v[2]]["n"]
        if got != k:
            self.no("%s instead of %s" % (got, k))
        return v[3]

    def each(self, f, xs, v):
        if v[0] != "arr" or len(v[1]) != len(xs):
            self.no("%s parts and not %d" % (len(v[1]) if v[0] == "arr" else "unknown", len(xs)))
        for x, y in zip(xs, v[1]):
            f(x, y)

    def some_order(self, f, xs, v, what):
        """the same things, in any order"""
        if v[0] != "arr" or len(v[1]) != len(xs):
            self.no("%s %s and not %d" % (len(v[1]) if v[0] == "arr" else "an unknown number of", what, len(xs)))
        left, why = list(v[1]), None
        for x in xs:
            for i, y in enumerate(left):
                saved = dict(self.fwd), dict(self.bwd)
                try:
                    f(x, y)
                    del left[i]
                    break
                except Differs as e:
                    self.fwd, self.bwd = saved
                    if i == 0 or why is None:
                        why = e
            else:
                raise why

    def var(self, n, v, env):
        i = v[3][0] if v[0] == "adt" else v
        for a, b in env[::-1]:
            if a == n[1] or b == i:
                if a == n[1] and b == i:
                    return
                break
        self.no("another type variable is meant than %s" % (n[1],))

    def binder(self, n, v, env):
        return env + [(n[1], v[3][0] if v[0] == "adt" else v)]

    def ty(self, t, v, env):
        a = self.tag("Ty", v, t[0])
        if t[0] == "Var":
            self.var(t[1], a[0], env)
        elif t[0] == "Named":
            self.name(t[1], a[0])
            self.each(lambda x, y: self.ty(x, y, env), t[2], a[1])
        elif t[0] == "Fn":
            self.each(lambda x, y: self.ty(x, y, env), t[1], a[0])
            self.ty(t[2], a[1], env)
        elif t[0] == "Abs":
            self.ty(t[2], a[1], self.binder(t[1], a[0], env))

    def expr(self, e, v, env):
        k = e[0]
        a = self.tag("Expr", v, k)
        ex = lambda x, y: self.expr(x, y, env)
        if k in ("Bool", "Int"):
            if a[0] != e[1][1]:
                self.no("another literal")
        elif k == "String":
            b = a[0][3][0] if a[0][0] == "adt" else a[0]
            got = known(b) if b[0] in ("s", "text") else bytes(x[1] for x in b[1]).decode() if b[0] == "arr" else None
            if got != e[1][1]:
                self.no("another literal")
        elif k == "Name":
            self.name(e[1], a[0])
        elif k == "Call":
            ex(e[1], a[0])
            self.each(ex, e[2], a[1])
        elif k == "If":
            for x, y in zip(e[1:], a):
                ex(x, y)
        elif k == "Op":
            ex(e[1], a[0])
            self.tag("Op", a[1], e[2][0])
            ex(e[3], a[2])
        elif k == "Intrinsic":
            self.tag("Intrinsic", a[0], e[1])
            self.each(ex, e[2], a[1])
        elif k == "Lambda":
            def param(x, y):
                self.name(x[0], self.field(y, "name"))
                self.ty(x[1], self.field(y, "ty"), env)
            self.each(param, e[1], a[0])
            ex(e[2], a[1])
        elif k == "Match":
            ex(e[1], a[0])

            def branch(x, y):
                self.name(x[0], self.field(y, "ctor"))
                self.each(self.name, x[1], self.field(y, "bindings"))
                ex(x[2], self.field(y, "value"))
            self.some_order(branch, e[2], a[1], "branches")
        elif k == "Construct":
            self.name(e[1], a[0])
            self.each(lambda x, y: self.ty(x, y, env), e[2], a[1])
            self.each(ex, e[3], a[2])
        elif k == "Let":
            self.name(e[1], a[0])
            ex(e[2], a[1])
            ex(e[3], a[2])
        elif k == "LetRec":
            self.name(e[1], a[0])
            self.ty(e[2], a[1], env)
            ex(e[3], a[2])
            ex(e[4], a[3])
        elif k == "Pi":
            self.expr(e[2], a[1], self.binder(e[1], a[0], env))
        elif k == "PiApply":
            ex(e[1], a[0])
            self.ty(e[2], a[1], env)
        elif k == "Trap":
            if known(a[0]) != e[1][1]:
                self.no("says %r and not %r" % (known(a[0]), e[1][1]))
            self.ty(e[2], a[1], env)

    def field(self, v, n):
        fs = [f["n"] for f in self.prog.adts[v[1]]["variants"][0]["f"]] if v[0] == "adt" else []
        if n not in fs:
            self.no("no %s" % n)
        return v[3][fs.index(n)]

    def shown(self, v, text):
        i = v[3][0]
        if i[0] != "c" or i[1] >= len(self.texts) or self.texts[i[1]] != text:
            self.no("%s is called %r" % (text, self.texts[i[1]] if i[0] == "c" and i[1] < len(self.texts) else None))

    def program(self, spec, v):
        ns = self.field(v, "names")
        self.texts = [known(x) if x[0] in ("s", "text") else None for x in ns[3][0][1]]

        def typedef(x, y):
            own, text, vs, cases = x
            try:
                self.name(own, self.field(y, "name"))
                self.shown(self.field(y, "name"), text)
                vv = self.field(y, "vars")
                self.each(lambda p, q: None, vs, vv)
                if len(set(vv[1])) != len(vv[1]):
                    self.no("its parameters are the same")
                env = []
                for p, q in zip(vs, vv[1]):
                    env = self.binder(p, q, env)

                def case(p, q):
                    self.name(p[0], self.field(q, "name"))
                    self.shown(self.field(q, "name"), p[1])
                    self.each(lambda a, b: self.ty(a, b, env), p[2], self.field(q, "fields"))
                self.some_order(case, cases, self.field(y, "cases"), "constructors")
            except Differs as e:
                raise Differs("the type %s: %s" % (text, e))

        def definition(x, y):
            _, n, text, t, e, export = x
            try:
                self.name(n, self.field(y, "name"))
                ex = self.field(y, "export_name")
                got = known(ex[3][0]) if ex[0] == "adt" and ex[3] else None if ex[0] == "adt" else "?"
                if got != export:
                    self.no("is exported as %s and not as %s" % (got, export))
                self.ty(t, self.field(y, "ty"), [])
                self.expr(e, self.field(y, "value"), [])
            except Differs as e:
                raise Differs("%s: %s" % (text, e))
        self.some_order(typedef, spec.types, self.field(v, "types"), "type definitions")
        defs = self.field(v, "defs")
        n = sum(len(g) for g in spec.defs)
        if defs[0] != "arr" or len(defs[1]) != n:
            self.no("%s definitions and not %d" % (len(defs[1]) if defs[0] == "arr" else "unknown", n))
        i = 0
        for g in spec.defs:
            self.some_order(definition, g, ("arr", defs[1][i:i + len(g)]), "definitions")
            i += len(g)
        binders = []

        def walk(x):
            if x[0] == "adt" and x[1] == IR + "Expr":
                k = self.prog.adts[x[1]]["variants"][x[2]]["n"]
                if k in ("Let", "LetRec"):
                    binders.append(x[3][0])
            if x[0] == "adt" and x[1] == IR + "LambdaParam":
                binders.append(self.field(x, "name"))
            if x[0] == "adt" and x[1] == IR + "Branch":
                binders.extend(self.field(x, "bindings")[1])
            for y in x[3] if x[0] == "adt" else x[1] if x[0] in ("arr", "tup") else ():
                walk(y)
        for d in defs[1]:
            binders.append(self.field(d, "name"))
            walk(self.field(d, "value"))
        if len(set(binders)) != len(binders):
            self.no("a name is bound twice")


INT, BOOL, STR = ("Int",), ("Bool",), ("String",)


def V(n):
    return ("Named", n, [])


def T(n, *a):
    return ("Named", n, list(a))


def F(*ts):
    return ts[0] if len(ts) == 1 else ("Fn", ts[0], F(*ts[1:]))


def N(n, *insts):
    return ("name", n, list(insts))


def app(f, *xs):
    for x in xs:
        f = ("app", f, x)
    return f


def imp(*mods):
    """mods: (key, items)"""
    return ("import", [k for k, _ in mods], "m", list(mods))


def scenarios():
    out = []
    # types: every arrangement of fields
    kinds = lambda p: ["rec", INT, V(p[0]) if p else STR, F(BOOL, V(p[-1]) if p else INT)]
    for np in (0, 1, 2):
        ps = ["a%d" % i for i in range(np)]
        ks = kinds(ps)
        out.append(("a type without constructors and %d parameters" % np, [("type", "T", ps, [])]))
        lists = [[]] + [[x] for x in ks] + [[x, y] for x in ks for y in ks] + [[ks[0], ks[1], ks[2]], [ks[3], ks[0], ks[0]], [ks[2], ks[3], ks[1]]]
        for i in range(0, len(lists), 3):
            cs = [("C%d" % (i + j), l) for j, l in enumerate(lists[i:i + 3])]
            out.append(("a type with %d parameters" % np, [("type", "T", ps, cs), ("value", "x", True, [], INT, ("int", 1))]))
    opt = ("type", "Opt", ["o"], [("Non", []), ("Som", [V("o")])])
    tree = ("type", "Tree", ["k", "v"], [("Leaf", []), ("Node", ["rec", V("k"), V("v"), "rec"]), ("One", [V("v"), V("k")])])
    nat = ("type", "Nat", [], [("Zero", []), ("Succ", ["rec"])])
    types = [opt, tree, nat]
    out.append(("types that mention others", [opt, tree, ("type", "Both", ["p"], [
        ("Bo", [T("Opt", T("Tree", V("p"), INT)), "rec", F(V("p"), T("Opt", V("p")))])])]))
    # types of values
    tys = [INT, BOOL, STR, F(INT, BOOL), F(F(INT, STR), BOOL, INT), T("Nat"), T("Opt", INT), T("Tree", STR, T("Opt", BOOL)), ("Infer",),
           F(("Infer",), INT), ("Folded", T("Nat"), INT), ("Folded", T("Opt", STR), BOOL), ("Folded", T("Tree", INT, STR), T("Nat")),
           ("Folded", F(INT, STR), BOOL), ("Folded", INT, BOOL), ("Folded", T("Tree", T("Opt", INT), STR), F(INT, T("Nat")))]
    for t in tys:
        out.append(("a value of each type", types + [("value", "x", False, [], t, ("hole", "_", t)),
                                                      ("value", "y", True, [], F(t, INT), ("lam", "p", t, ("int", 3)))]))
    # polymorphism
    for tv in (["a"], ["a", "b"], ["a", "b", "c"]):
        t = F(*([V(x) for x in tv] + [V(tv[0])]))
        e = N("p0")
        for i, x in list(enumerate(tv))[::-1]:
            e = ("lam", "p%d" % i, V(x), e)
        ins = [INT, STR, T("Nat")][:len(tv)]
        args = [("int", 4), ("str", "s"), N("Zero")][:len(tv)]
        out.append(("a value with %d type parameters" % len(tv), types + [
            ("value", "f", True, tv, t, e), ("value", "g", False, [], INT, app(N("f", *ins), *args)),
            ("value", "h", True, ["q"], F(V("q"), V("q")), ("lam", "z", V("q"), app(N("f", V("q"), *ins[1:]), N("z"), *args[1:])))]))
        le = ("let", "lf", tv, t, e, app(N("lf", *ins), *args))
        out.append(("a let with %d type parameters" % len(tv), types + [
            ("value", "g", True, [], INT, le),
            ("value", "h", True, ["q"], F(V("q"), INT), ("lam", "z", V("q"), ("let", "lg", [w + "2" for w in tv], F(*([V(w + "2") for w in tv] + [V("q")])),
                                                                               lams([("y%d" % i, V(w + "2")) for i, w in enumerate(tv)], N("z")),
                                                                               ("let", "k", [], INT, ("int", 2), N("k")))))]))
    out.append(("the same polymorphic value, twice", [("value", "i", False, ["a"], F(V("a"), V("a")), ("lam", "x", V("a"), N("x"))),
                                                       ("value", "j", True, ["b"], F(V("b"), V("b")), ("lam", "x2", V("b"), app(N("i", V("b")), N("x2")))),
                                                       ("value", "k", True, [], BOOL, app(N("j", BOOL), ("bool", True)))]))
    out.append(("constructors are used at types", types + [
        ("value", "x", True, [], T("Opt", INT), app(N("Som", INT), ("int", 1))),
        ("value", "y", True, ["a"], T("Tree", V("a"), INT), N("Leaf", V("a"), INT)),
        ("value", "z", False, [], T("Tree", STR, BOOL), app(N("One", STR, BOOL), ("bool", False), ("str", "k")))]))
    # folds
    over = [T("Nat"), T("Opt", INT), T("Tree", STR, BOOL), T("Tree", T("Opt", INT), F(INT, INT)), INT, F(INT, BOOL)]
    for t in over:
        for r in (INT, T("Nat"), F(INT, STR), t):
            out.append(("a fold", types + [("value", "x", True, [], F(t, r), ("fold", "p", t, r, ("hole", "_some", r)))]))
    out.append(("a fold over a parameter", types + [("value", "x", True, ["a"], F(V("a"), INT), ("fold", "p", V("a"), INT, ("int", 1)))]))
    out.append(("a polymorphic fold", types + [
        ("value", "x", True, ["a", "b"], F(T("Tree", V("a"), V("b")), T("Opt", V("b"))), (
            "fold", "p", T("Tree", V("a"), V("b")), T("Opt", V("b")), ("match", N("p"), ("Folded", T("Tree", V("a"), V("b")), T("Opt", V("b"))), [
                ("One", ["v", "k"], app(N("Som", V("b")), N("v"))), ("Leaf", [], N("Non", V("b"))), ("Node", ["l", "k2", "v2", "r"], N("l"))])))]))
    out.append(("a fold in a fold", types + [
        ("value", "x", True, [], F(T("Nat"), T("Opt", INT), INT), ("fold", "p", T("Nat"), F(T("Opt", INT), INT), (
            "fold", "q", T("Opt", INT), INT, ("match", N("p"), ("Folded", T("Nat"), F(T("Opt", INT), INT)), [
                ("Zero", [], ("int", 0)), ("Succ", ["n"], ("match", N("q"), ("Folded", T("Opt", INT), INT), [
                    ("Som", ["i"], N("i")), ("Non", [], ("int", 5))]))]))))]))
    # matches
    for t in (T("Tree", INT, STR), ("Folded", T("Tree", INT, STR), BOOL)):
        out.append(("a match", types + [("value", "x", True, [], F(t, INT), ("lam", "p", t, ("match", N("p"), t, [
                ("Node", ["a1", "b1", "c1", "d1"], N("b1")), ("One", ["v", "k"], N("k")), ("Leaf", [], ("int", 0))])))]))
    out.append(("a match in a match", types + [("value", "x", True, [], F(T("Nat"), T("Nat"), INT), ("lam", "p", T("Nat"), ("lam", "q", T("Nat"), (
        "match", N("p"), T("Nat"), [("Zero", [], ("match", N("q"), T("Nat"), [("Succ", ["m"], ("int", 7)), ("Zero", [], ("int", 8))])),
                                    ("Succ", ["n"], ("match", N("n"), T("Nat"), [("Succ", ["m2"], ("int", 9)), ("Zero", [], ("int", 6))]))]))))]))
    # the other forms, together
    every = ("let", "u", [], INT, ("op", "Plus", ("int", 1), ("paren", ("op", "Star", ("int", 2), ("int", 3)))), (
        "if", ("op", "Less", N("u"), ("int", 18446744073709551615)), ("op", "ArgPipe", N("u"), ("lam", "w", INT, ("op", "Minus", N("w"), N("u")))),
        app(("lam", "s", STR, ("hole", "__h1__", INT)), ("str", "a b"))))
    out.append(("every form of expression", [("value", "main", True, [], INT, every), ("value", "other", False, [], BOOL, ("bool", False))]))
    for h in ("_", "_x", "x_", "__", "_1_"):
        out.append(("a hole", [("value", "x", True, ["a"], V("a"), ("hole", h, V("a")))]))
    # modules
    d = (1, [opt, ("value", "main", True, ["a"], F(V("a"), V("a")), ("lam", "dx", V("a"), N("dx"))), ("value", "hidden", False, [], INT, ("int", 2))])
    e = (2, [imp(d), ("value", "emain", True, [], INT, app(("path", "main", [INT]), ("int", 3)))])
    f = (3, [imp(e), imp(d), ("value", "fmain", True, [], INT, ("path", "emain", []))])
    use = ("value", "top", True, [], T("Opt", INT), app(N("Som", INT), app(("path", "main", [INT]), ("int", 5))))
    out.append(("a module that is imported", [imp(d), use]))
    out.append(("a module that is imported twice", [imp(d), imp(d), use]))
    out.append(("a module that is imported in two ways", [imp(e), imp(d), use, ("value", "low", False, [], INT, ("path", "emain", []))]))
    out.append(("a module that is imported in three ways", [imp(f), imp(e), use]))
    out.append(("an import after definitions", [("value", "first", True, [], INT, ("int", 1)), imp(d, e), use]))
    out.append(("two modules of one import", [imp(d, e), nat, use]))
    out.append(("what is exported", [("value", "main", False, [], INT, ("int", 1)), ("value", "a", True, [], INT, ("int", 1)),
                                     ("value", "b", False, [], INT, ("int", 1)), ("value", "c", True, [], INT, N("b"))]))
    out.append(("an exported type", [opt + (True,), ("value", "c", True, [], INT, ("int", 1))]))
    return out


def lams(ps, e):
    for n, t in ps[::-1]:
        e = ("lam", n, t, e)
    return e


class C:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        gen = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and not f.derived and f.nargs == 1 and
               prog.adt_of(f.locals[0]) == IR + "Program" and prog.adt_of(f.locals[1]) == UNIT]
        self.generate = one("generation of core", [f for f in gen if not any(g is not f and g.id in prog.reachable([f.id]) for g in gen)])

    def build(self, w, key, items):
        """units of imported modules are built in place of their keys"""
        its = []
        for it in items:
            if it[0] == "import":
                units = []
                for k, sub in it[3]:
                    if (k,) not in w.units:
                        w.units[k,] = self.build(w, k, sub)
                    units.append(w.units[k,])
                its.append(("import", units))
            else:
                its.append(it)
        return w.module(key, its)

    def run(self, items):
        prog = self.prog
        w = W(prog)
        w.units = {}
        unit = self.build(w, 0, items)
        intr = [d for d in prog.adts if d.startswith("ticc::builtin::") and prog.adts[d]["kind"] != "enum" and len(prog.adts[d]["variants"][0]["f"]) > 4
                and all(prog.adt_of(f["t"]) == CIR + "Symbol" for f in prog.adts[d]["variants"][0]["f"])]
        intrinsics = None
        if len(intr) == 1:
            n = len(prog.adts[intr[0]]["variants"][0]["f"])
            intrinsics = ("adt", intr[0], 0, tuple(w.sym(("intrinsic", i)) for i in range(n)))
        it = Gen(prog, w.table, intrinsics)
        ends = [(st, it.deep(st, v)) for st, v in it.start(self.generate, [unit])]
        return it, ends

    def judge(self):
        rep, n = self.rep, 0
        for what, items in scenarios():
            n += 1
            spec = Spec()
            spec.module(0, items, True)
            it, ends = self.run(items)
            why = None
            if len(ends) != 1 or it.diverged:
                why = "is not translated on one path: %d ends, %d panics%s" % (len(ends), len(it.diverged), "".join(
                    " in %s" % f.id for _, f, _ in it.diverged[:1] if f))
            else:
                try:
                    Same(self.prog).program(spec, ends[0][1])
                except Differs as e:
                    why = str(e)
            rep.ob(why is None, what, why or "", self.generate.loc())
        rep.floor("modules", n, 80)


def run(prog, rep):
    C(prog, rep).judge()
