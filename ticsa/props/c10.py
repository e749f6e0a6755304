"""C10: number literals, type argument counts and matches are checked wherever they occur."""
from ..mir import Anchor
from ..front import show, RESULT, OPTION
from ..world import SynWorld, path, PRE
from ..ast import Ast
from .c04 import terms
from .c09 import K as K9, ITEM
from .c11 import IRTY

RULE = ("on every path of the stages, with helpers entered: the check of numbers looks at every number node of the item's tree and "
        "reports it exactly when its text does not convert to a 64 bit number; the kind check looks at every named type and "
        "reports it exactly when the type takes another number of arguments, and turns every ill-kinded type stored in a "
        "definition into the error type, at every depth; the check of matches looks at every match and reports a type without "
        "constructors, a repeated constructor and a missing constructor exactly when there is one")
ASSUMPTIONS = ["descendants() of the syntax tree yields every node", "the parts of a node are what its accessors return"]

KIND = "ticc::compiler::ir::DefKind"


def possible(v, n):
    return {v} if isinstance(v, int) else set(range(n)) - set(v)


class W(SynWorld):
    """repeated: the sequence accessors of these names give two elements"""
    two = ()
    max_steps = 400000

    def unknown(self, callee, args, st, t, fn):
        for s, v in super().unknown(callee, args, st, t, fn):
            if v[0] == "acc" and v[1] in self.two and not any(x[0] == "sym" and x[1].startswith("case") for x in terms(v)):
                v = ("arr", (("sym", "case0"), ("sym", "case1")))
            yield s, v

    def simplify(self, t, st):
        t = super().simplify(t, st)
        if t[0] == "call" and t[1] == "contains":
            m = t[2]
            while m[0] == "call" and m[1] == "retain":
                if m[3][0] == "bin" and m[3][1] == "Ne" and t[3] in m[3][2:]:
                    return ("c", 0)
                m = m[2]
        return t


def nodes(prog, f, st, roots, kind):
    """(the node of this kind the path looks at, 1 seen / 0 not this kind / None), and whether it runs over the whole tree"""
    node = ok = None
    for x, v in st.facts.items():
        if x[:2] == ("call", "discr") and x[2][0] == "acc" and x[2][1] == "cast:" + kind:
            node = x[2]
            d = node[2]
            while d[0] == "acc" and d[1] == "clone":
                d = d[2]
            whole = d[0] == "elem" and d[1][:2] == ("acc", "descendants") and d[1][2][:2] == ("acc", "root") and \
                path(prog, d[1][2][2], roots) == ("i", "syntax", "tree")
            return ("proj", ("proj", node, ("v", 1)), 0), v, whole
    return None, None, None


def under(t, node):
    return any(x == node for x in terms(t))


def some(t):
    """x, for the value inside of the Some x"""
    if t[0] == "ok":
        return t[1]
    if t[0] == "proj" and t[1][0] == "proj" and t[1][2] == ("v", 1) and t[2] == 0:
        return t[1][1]
    return None


def accs(t, node=None):
    """accessors from the outside in: span(syntax(x)) -> ['span', 'syntax'], x"""
    out = []
    while t != node:
        if t[0] == "acc":
            out.append(t[1])
            t = t[2]
        elif some(t):
            t = some(t)
            out.append("?")
        elif t[0] == "adt" and t[1].startswith(PRE) and len(t[3]) == 1:
            t = t[3][0]
        else:
            break
    return out, t


def start(prog, f, it):
    args, roots = [], {}
    for i, x in enumerate(f.locals[1:f.nargs + 1]):
        n = "i" if prog.adt_of(x) == ITEM else "a%d" % i
        args.append(("sym", n))
        roots[("sym", n)] = (n, x)
    return it.start(f, args), roots


# ---- numbers
def judge_numbers(prog, rep, f):
    it = W(prog)
    outs, roots = start(prog, f, it)
    n = good = 0
    for st, _ in outs:
        node, seen, whole = nodes(prog, f, st, roots, "NumberExpr")
        diags = [e for e in st.trace if e[0] == "diag"]
        if node is None or seen == 0:
            rep.ob(not diags, f.id, "reports something that is not a number", f.loc())
            continue
        rep.ob(whole, f.id + ": nodes", "are not all nodes of the item's tree", f.loc())
        n += 1
        fails, conv = False, []
        for x, v in st.facts.items():
            d = x[2] if x[:2] == ("call", "discr") else None
            if d is None or not under(d, node):
                if d is None or d[0] != "call" or not d[1].startswith("checked_"):
                    continue
            if d[0] == "call" and d[1] in ("to_digit", "checked_mul", "checked_add"):
                conv.append((d, v))
                fails |= v == 0
            elif d[0] == "call" and d[1] in ("parse", "from_str", "from_str_radix"):
                conv.append((d, v))
                fails |= v == 1
        visited = any(e[0] == "iter" and under(e[1], node) for e in st.trace)
        key = f.id + ": number"
        if fails:
            rep.ob(len(diags) == 1 and diags[0][1] == "Error" and under(diags[0][2], node), key,
                   "is not reported although it does not convert", f.loc())
            continue
        rep.ob(not diags, key, "is reported although it converts", f.loc())
        if visited or conv:
            ds = [d for d, v in conv]
            ok = any(d[1] == "parse" or d[1] == "from_str" for d in ds) or \
                {"to_digit", "checked_mul", "checked_add"} <= {d[1] for d in ds} and \
                all(d[3] == ("c", 10) for d in ds if d[1] == "to_digit") and \
                all(("c", 10) in d[2:] for d in ds if d[1] == "checked_mul") and \
                all(any(y[:2] == ("call", "checked_mul") for y in terms(d)) and any(y[:2] == ("call", "to_digit") for y in terms(d))
                    for d in ds if d[1] == "checked_add")
            text = all(any(x[0] == "acc" and x[1] == "text" and under(x, node) for x in terms(d)) for d in ds if d[1] in ("to_digit", "parse"))
            rep.ob(ok and text, key, "is accepted without its text converting to a 64 bit number", f.loc())
            good += 1
    rep.ob(good > 0, f.id, "never accepts a number", f.loc())
    return n


# ---- kinds
def type_id(prog, s):
    for i, t in enumerate(prog.types):
        if t["s"] == s:
            return i
    raise Anchor("type " + s)


def judge_kinds(prog, rep, f, adders):
    own = prog.reachable([f.id])
    clean = [g for g in prog.fns.values() if g.id in own and g.crate == "ticc" and g.kind == "fn" and
             any(prog.tstr(x) == "&mut " + IRTY for x in g.locals[1:g.nargs + 1]) and g.id in prog.cg().get(g.id, ())]
    if len(clean) != 1:
        # not by recursion: some other way that this rule does not know
        raise Anchor("cleaning of a type, found %d" % len(clean))
    clean = clean[0]
    kinds = [v["n"] for v in prog.adts[KIND]["variants"]]
    n = 0
    for ki, kind in enumerate(kinds):
        it = W(prog, {clean.id})
        it.pin(KIND, ki)
        outs, roots = start(prog, f, it)
        want = set()
        for fl in prog.adts[KIND]["variants"][ki]["f"]:
            for p, cond in stored(prog, fl["t"]):
                want.add((("i", "defs", "*", "kind", "%s.%s" % (kind, fl["n"])) + p, cond))
        for st, _ in outs:
            its = [path(prog, e[1], roots) for e in st.trace if e[0] == "iter"]
            if ("i", "defs") not in its:
                rep.ob(any(e[0] == "noiter" and path(prog, e[1], roots) == ("i", "defs") for e in st.trace), f.id,
                       "does not look at all definitions", f.loc())
                continue
            did = {path(prog, a, roots) for e in st.trace if e[0] == "do" and e[1] == clean.id for a in e[2]}
            for p, cond in want:
                n += 1
                key = "%s: %s" % (f.id, ".".join(p[4:]))
                if "*" in p[4:]:
                    lst = p[:len(p) - 1 - list(reversed(p)).index("*")]
                    vis = lst in its
                    if not vis:
                        rep.ob(any(e[0] == "noiter" and path(prog, e[1], roots) == lst for e in st.trace), key,
                               "is not looked at", f.loc())
                        continue
                    if cond is not None:
                        el, vi, nv = lst + ("*",), cond[0], cond[1]
                        poss = None
                        for x, v in st.facts.items():
                            if x[:2] == ("call", "discr") and path(prog, x[2], roots) == el:
                                poss = possible(v, nv)
                        if poss is not None and vi not in poss:
                            continue
                rep.ob(p in did, key, "keeps an ill-kinded type", f.loc())
    n += judge_clean(prog, rep, clean)
    n += judge_counts(prog, rep, f, clean)
    return n


def stored(prog, ty, depth=0):
    """paths to the types stored in a field: [(path, (variant index, variants) or None)]"""
    t = prog.types[ty]
    if prog.tstr(ty) == IRTY:
        return [((), None)]
    if depth > 3:
        return []
    if t["k"] in ("ref",):
        return stored(prog, t["t"], depth)
    if t["k"] == "adt":
        a = prog.adts.get(t["d"])
        if "Vec" in t["d"] and t.get("a"):
            return [(("*",) + p, c) for p, c in stored(prog, t["a"][0], depth + 1)]
        if t["d"].endswith("boxed::Box"):
            return stored(prog, t["a"][0], depth)
        if a and a["kind"] == "enum" and t["d"].startswith("ticc::compiler::ir::") and t["d"] != KIND:
            out = []
            for vi, v in enumerate(a["variants"]):
                for fl in v["f"]:
                    for p, c in stored(prog, fl["t"], depth + 1):
                        out.append((("%s.%s" % (v["n"], fl["n"]),) + p, (vi, len(a["variants"]))))
            return out
    return []


def judge_clean(prog, rep, g):
    vs = prog.adts[IRTY]["variants"]
    err = [i for i, v in enumerate(vs) if v["n"] == "Error"][0]
    ai = [i for i, x in enumerate(g.locals[1:g.nargs + 1]) if prog.tstr(x) == "&mut " + IRTY][0]
    n = 0
    for vi, v in enumerate(vs):
        it = W(prog, {g.id})
        args = [("sym", "a%d" % i) for i in range(g.nargs)]
        from ..front import State
        st0 = State()
        root = ("loc", "type")
        st0.env[root] = ("adt", IRTY, vi, tuple(("sym", "c%d" % j) for j in range(len(v["f"]))))
        args[ai] = ("ptr", root, ())
        roots = {("sym", "a%d" % i): ("a%d" % i, g.locals[i + 1]) for i in range(g.nargs) if i != ai}
        kids = [(j, fl) for j, fl in enumerate(v["f"]) if IRTY in prog.tstr(fl["t"])]
        key = "%s: %s" % (g.id, v["n"])
        it.inner = True
        for st, _ in it.start(FirstOpen(g), args, st0):
            n += 1
            end = it.deep(st, it.load(st, root, ()))
            did = [a for e in st.trace if e[0] == "do" and e[1] == g.id for a in e[2]]
            dropped = end[0] == "adt" and end[2] == err and vi != err
            for j, fl in kids:
                c = ("sym", "c%d" % j)
                if "Vec" in prog.tstr(fl["t"]):
                    vis = any(e[0] == "iter" and e[1] == c for e in st.trace)
                    none = any(e[0] == "noiter" and e[1] == c for e in st.trace)
                    rep.ob(dropped or none or vis and ("elem", c) in did, key, "keeps an ill-kinded part", g.loc())
                else:
                    rep.ob(dropped or any(x == c or x[0] == "proj" and x[1] == c for x in did), key, "keeps an ill-kinded part", g.loc())
            named = any("Vec" in prog.tstr(fl["t"]) for _, fl in kids)
            if named:
                verdict = None
                for x, val in st.facts.items():
                    if x[0] == "bin" and x[1] in ("Eq", "Ne") and any(y == ("call", "len", ("sym", "c%d" % kids[0][0])) or
                                                                      y[:2] == ("call", "len") and under(y, ("sym", "c%d" % kids[0][0]))
                                                                      for y in x[2:]):
                        verdict = (x[1] == "Eq") == bool(val)
                    if x[:2] == ("call", "discr") and x[2][0] in ("ret", "call", "proj") and val == 0 and is_lookup(x[2]):
                        verdict = False
                rep.ob(not any(y[0] == "at" for x in st.facts for y in terms(x)), key,
                       "is taken to have a definition, which it does not have when its name is missing", g.loc())
                if verdict is None:
                    rep.ob(dropped, key, "is kept without its arguments being counted", g.loc())
                else:
                    rep.ob(dropped != verdict, key, "is kept although it has the wrong number of arguments" if not verdict else
                           "is dropped although it is well kinded", g.loc())
            else:
                rep.ob(not dropped, key, "is dropped", g.loc())
                rep.ob(end[0] != "adt" or end[2] == vi, key, "becomes another type", g.loc())
    return n


def is_lookup(t):
    return t[0] == "ret" or t[:2] == ("call", "get")


def FirstOpen(g):
    return g


def judge_counts(prog, rep, f, clean):
    it = W(prog, {clean.id})
    it.pin(KIND, 0)
    pi = [i for i, v in enumerate(prog.adts[KIND]["variants"]) if v["n"] == "Type"][0]
    it.pins = {}
    outs, roots = start(prog, f, it)
    n = 0
    told = {True: 0, False: 0}
    for st, _ in outs:
        node, seen, whole = nodes(prog, f, st, roots, "NamedType")
        diags = [e for e in st.trace if e[0] == "diag"]
        if node is None or seen == 0:
            rep.ob(not diags, f.id, "reports something that is not a named type", f.loc())
            continue
        rep.ob(whole, f.id + ": nodes", "are not all nodes of the item's tree", f.loc())
        n += 1
        key = f.id + ": type arguments"
        verdict = None
        unknown = False
        for x, v in st.facts.items():
            if x[0] == "bin" and x[1] in ("Eq", "Ne") and any(counted(y, node) for y in x[2:]):
                other = [y for y in x[2:] if not counted(y, node)]
                ok = other and any(path(prog, y, roots) == ("i", "refs", "*", "symbol") for y in terms(other[0]))
                rep.ob(ok, key, "are not compared with those the type takes", f.loc())
                verdict = (x[1] == "Eq") == bool(v)
            if x[0] == "bin" and x[1] == "Eq" and v == 0 and any((path(prog, y, roots) or ())[:3] == ("i", "refs", "*") for y in x[2:]):
                unknown = True
        if verdict is None:
            unknown |= not any(x[0] == "bin" and any((path(prog, y, roots) or ())[:3] == ("i", "refs", "*") for y in x[2:])
                               for x in st.facts)
            rep.ob(unknown and not diags, key, "are not counted", f.loc())
            continue
        told[verdict] += 1
        if verdict:
            rep.ob(not diags, key, "are reported although their number is right", f.loc())
        else:
            rep.ob(len(diags) == 1 and diags[0][1] == "Error" and under(diags[0][2], node), key,
                   "are not reported although their number is wrong", f.loc())
    rep.ob(told[True] > 0 and told[False] > 0, f.id + ": type arguments", "are not counted", f.loc())
    return n


def counted(t, node):
    if t[0] != "call" or t[1] not in ("count", "len") or not under(t, node):
        return False
    ks, b = accs(t[2], node)
    while b[0] == "call" and b[1] in ("collect", "to_vec") and len(b) == 3:
        ks, b = accs(b[2], node)
    return b == node and bool(ks)


# ---- matches
def judge_matches(prog, rep, f):
    ast = Ast(prog)
    many = [a for a in ast.acc.get("MatchExpr", ()) if a.many]
    if len(many) != 1:
        raise Anchor("branches of a match")
    single = {a.name for a in ast.acc["MatchExpr"] if not a.many}
    vs = {v["n"]: i for i, v in enumerate(prog.adts[IRTY]["variants"])}
    nv = len(vs)
    n = 0
    tally = {"type": 0, "repeated": 0, "missing": 0, "complete": 0}
    for two in (False, True):
        it = W(prog)
        if two:
            it.two = {many[0].name}
        outs, roots = start(prog, f, it)
        tid = type_id(prog, IRTY)
        did = type_id(prog, "ticc::compiler::ir::Def")
        for st, _ in outs:
            node, seen, whole = nodes(prog, f, st, roots, "MatchExpr")
            diags = [e for e in st.trace if e[0] == "diag"]
            if node is None or seen == 0:
                rep.ob(not diags, f.id, "reports something that is not a match", f.loc())
                continue
            n += 1
            rep.ob(whole, f.id + ": nodes", "are not all nodes of the item's tree", f.loc())
            r2 = dict(roots)
            key0 = f.id + ": matched type"
            looks = []
            for x in list(st.facts) + [y for e in st.trace for y in e[1:] if isinstance(y, tuple) and y and isinstance(y[0], str)] + \
                    [a for e in st.trace if e[0] == "do" for a in e[2]]:
                for y in terms(x):
                    o = some(y)
                    if o and o[:2] == ("call", "get") and path(prog, o[2], roots) == ("i", "types"):
                        r2[y] = ("ty", tid)
                        key_node = o[3]
                    elif o and o[:2] == ("call", "get") and defs(prog, o[2], roots):
                        r2[y] = ("def", did)
                    elif y[0] == "at" and path(prog, y[1], roots) == ("i", "types"):
                        r2[y] = ("ty", tid)
                        key_node = y[2]
                    elif y[0] == "at" and defs(prog, y[1], roots):
                        r2[y] = ("def", did)
                        looks.append(y[2])
                        rep.ob(False, key0, "is taken to have a definition, which it does not have when its name is missing", f.loc())

            def fact(p, count):
                for x, v in st.facts.items():
                    if x[:2] == ("call", "discr") and path(prog, x[2], r2) == p:
                        return possible(v, count)
                return None
            ty = fact(("ty",), nv)
            key = f.id + ": matched type"
            if ty is None:
                rep.ob(not diags, key, "is judged without being looked at", f.loc())
                continue
            ks, b = accs(key_node, node)
            rep.ob(ks[:2] == ["id", "syntax"] and b == node and [x for x in ks[2:] if x != "?"] and
                   all(x == "?" or x in single for x in ks[2:]), key, "is that of something else", f.loc())
            at = ("ty",)
            if ty == {vs["Folded"]}:
                ty = fact(("ty", "Folded.0"), nv)
                at = ("ty", "Folded.0")
                if ty is None:
                    rep.ob(False, key, "is judged without being looked at", f.loc())
                    continue
            mine = [e for e in diags if accs(e[2], node)[1] == node or under(e[2], node) or under(e[2], ("sym", "case0")) or under(e[2], ("sym", "case1"))]
            rep.ob(len(mine) == len(diags) and all(e[1] == "Error" for e in diags), f.id, "reports something else", f.loc())
            if ty <= {vs["Error"]}:
                rep.ob(not diags, key, "is reported twice", f.loc())
                continue
            if not ty <= {vs["Named"]}:
                tally["type"] += 1
                rep.ob(bool(diags) == (vs["Named"] not in ty and vs["Error"] not in ty), key, "that has no constructors is not reported", f.loc())
                continue
            rep.ob(all(path(prog, a, r2) == at + ("Named.0",) for a in looks), key,
                   "is not the type whose constructors are listed", f.loc())
            ctors = fact(("def", "kind", "Type.ctors"), 2)
            if ctors is None:
                rep.ob(not diags, key, "is judged without its constructors", f.loc())
                continue
            cv = {v["n"]: i for i, v in enumerate(prog.adts["ticc::compiler::ir::Ctors"]["variants"])}
            if ctors == {cv["Opaque"]}:
                tally["type"] += 1
                rep.ob(bool(diags), key, "that has no constructors is not reported", f.loc())
                continue
            cases(prog, rep, f, st, r2, node, diags, two, tally)
    for k, v in tally.items():
        rep.ob(v > 0, "%s: %s" % (f.id, k), "is never found", f.loc())
    return n


def cases(prog, rep, f, st, roots, node, diags, two, tally):
    full = ("def", "kind", "Type.ctors", "List.0")
    sym = ("i", "refs", "*", "symbol")

    def base(t):
        drops = []
        while True:
            if t[0] == "call" and t[1] in ("retain", "filter") and len(t) == 4:
                drops.append(t)
                t = t[2]
            elif t[0] == "call" and t[1] in ("to_vec", "collect", "clone") and len(t) == 3:
                t = t[2]
            else:
                return t, drops
    member = {}
    for x, v in st.facts.items():
        if x[0] == "call" and x[1] in ("contains", "insert", "remove") and path(prog, x[3], roots) == sym:
            m, drops = base(x[2])
            member.setdefault(x[1] if path(prog, m, roots) != full else ("in" if not drops else "left"), []).append(v)
    of = {}
    for e in diags:
        ks, b = accs(e[2], node)
        of.setdefault(b if not under(e[2], node) else "match", []).append(e)
    case = [b for b in of if b != "match"]
    # the last fact on whether something is left
    left = None
    for x, v in st.facts.items():
        e = emptiness(x, v)
        if e is None:
            continue
        m, drops = base(e[0])
        if path(prog, m, roots) == full or m[0] == "map":
            left = (drops, e[1])
    ended = left is not None
    key = f.id + ": repeated constructor"
    foreign = 0 in member.get("in", ())
    same = two and (1 in member.get("in", ()) or "in" not in member) and len(visited_refs(prog, st, roots)) == 2 and not foreign
    c0, c1 = ("sym", "case0"), ("sym", "case1")
    if two:
        setlike = [v for n in ("insert", "remove", "contains") for v in member.get(n, ())]
        if same and not setlike:
            tally["repeated"] += 1
            rep.ob(len(of.get(c1, ())) == 1, key, "is not reported", f.loc())
            rep.ob(c0 not in of, key, "is reported at its first use", f.loc())
        elif same:
            tally["repeated"] += 1
            rep.ob(bool(case) == (len(set(setlike)) == 1 and len(case) > 0), key, "is not reported", f.loc())
        elif foreign:
            rep.ob(not case, key, "is reported for a constructor of another type", f.loc())
    else:
        rep.ob(not [b for b in case], key, "is reported for one use", f.loc())
    key = f.id + ": missing constructor"
    if not ended:
        rep.ob("match" not in of, key, "is reported without being looked for", f.loc())
        return
    drops, empty = left
    for d in drops:
        good = d[3][0] == "bin" and d[3][1] == "Ne" and {elem_of(y, d[2]) or path(prog, y, roots) == sym for y in d[3][2:]} == {True} and \
            any(elem_of(y, d[2]) for y in d[3][2:])
        rep.ob(good, key, "more or less than the constructor of the branch is taken as covered", f.loc())
    tally["complete" if empty else "missing"] += 1
    rep.ob(("match" in of) == (not empty), key, "is not reported" if not empty else "is reported although all are covered", f.loc())


def defs(prog, t, roots):
    """all known definitions"""
    if t[0] not in ("proj", "sym"):
        return False
    p = path(prog, t, roots)
    return p is not None and p[0] != "i" and p[-1] == "defs"


def elem_of(t, lst):
    while t[0] == "proj" and t[2] == 0 or t[0] == "adt" and len(t[3]) == 1:
        t = t[1] if t[0] == "proj" else t[3][0]
    return t[0] == "elem"


def visited_refs(prog, st, roots):
    """branches whose constructor was found among the references"""
    out = set()
    for x, v in st.facts.items():
        if x[0] == "bin" and x[1] == "Eq" and v == 1 and any((path(prog, y, roots) or ())[:4] == ("i", "refs", "*", "node") for y in x[2:]):
            for y in x[2:]:
                for c in (("sym", "case0"), ("sym", "case1")):
                    if under(y, c):
                        out.add(c)
    return out


def emptiness(x, v):
    """(collection, empty)"""
    if x[0] == "call" and x[1] == "is_empty":
        return x[2], bool(v)
    if x[0] == "bin" and len(x) == 4:
        a, b = x[2], x[3]
        size = None
        for y, z in ((a, b), (b, a)):
            if z == ("c", 0) and (y[:2] in (("un", "PtrMetadata"), ("call", "len"))):
                size = y[2]
        if size is None:
            return None
        if x[1] in ("Eq", "Ne"):
            return size, (x[1] == "Eq") == bool(v)
        if x[1] in ("Gt", "Lt"):
            return size, not v
        if x[1] in ("Le", "Ge"):
            return size, bool(v)
    return None


def run(prog, rep):
    k = K9(prog)
    by = {}
    for fid, role in k.role.items():
        if fid in prog.cg().get(k.drive.id, ()) or fid in prog.reachable([k.drive.id]):
            by.setdefault(role, []).append(fid)
    # the outermost function of each stage
    def outer(role):
        fs = by.get(role, [])
        inner = {y for x in fs for y in prog.reachable([x]) if y != x}
        fs = [x for x in fs if x not in inner] or fs
        if len(fs) != 1:
            raise Anchor("stage " + role)
        return prog.fns[fs[0]]
    rep.floor("paths of the check of numbers", judge_numbers(prog, rep, outer("number")), 3)
    rep.floor("places and paths of the kind check", judge_kinds(prog, rep, outer("kind"), k.adders), 20)
    rep.floor("paths of the check of matches", judge_matches(prog, rep, outer("match")), 20)
