"""C23: places and colours in the editor are those of the text."""
from ..mir import Anchor
from ..front import OPTION, items
from ..world import World
from .c09 import UNIT
from .c16 import own, every
from .c17 import fields, strip, opt, terms_all, short
from .c25 import SPAN, POS, index

RULE = ("on every path of the table of line starts, the conversions in both directions and the listing of tokens: a line start is pushed "
        "exactly after the first line feed that follows the last one, the table reaches far enough when it is searched, and the numbers "
        "that come out are the line and the count of UTF-16 units in it, compared as linear terms")
ASSUMPTIONS = ["binary_search and partition_point of a sorted list are what the standard library says", "texts are shorter than 4 GiB"]
NL = ("c", 10)


def lin(t):
    """linear form {atom: coefficient}, without casts"""
    out = {}

    def go(t, k):
        while t[0] == "un" and str(t[1]).startswith("as "):
            t = t[2]
        if t[0] == "c" and isinstance(t[1], int):
            out[1] = out.get(1, 0) + k * t[1]
        elif t[:2] == ("call", "len") and t[2][:2] == ("call", "index") and t[2][3][0] == "adt" and t[2][3][1].endswith("::Range"):
            go(t[2][3][3][1], k)
            go(t[2][3][3][0], -k)
        elif t[:2] in (("call", "add"), ("call", "sub")) and len(t) == 4:
            go(t[2], k)
            go(t[3], k if t[1] == "add" else -k)
        elif t[0] == "bin" and t[1] in ("Add", "AddUnchecked"):
            go(t[2], k)
            go(t[3], k)
        elif t[0] == "bin" and t[1] in ("Sub", "SubUnchecked"):
            go(t[2], k)
            go(t[3], -k)
        else:
            a = atom(t)
            out[a] = out.get(a, 0) + k
    go(t, 1)
    return {a: k for a, k in out.items() if k}


def atom(t):
    """without casts inside"""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("un",) and str(t[1]).startswith("as "):
        return atom(t[2])
    return tuple(atom(x) for x in t)


def minus(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) - v
    return {a: k for a, k in out.items() if k}


def bounds(st):
    """the comparisons of a path: linear forms that are at most 0"""
    for k, v in st.facts.items():
        if k[0] != "bin" or k[1] not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") or not isinstance(v, int):
            continue
        op, a, b = k[1], lin(k[2]), lin(k[3])
        if not v:
            op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}[op]
        if op in ("Gt", "Ge"):
            a, b, op = b, a, {"Gt": "Lt", "Ge": "Le"}[op]
        d = minus(a, b)
        if op == "Lt":
            yield minus(d, {1: -1})
        elif op == "Le":
            yield d
        elif op == "Eq":
            yield d
            yield minus({}, d)


def less(st, a, b, strict=False):
    """a <= b (or a < b) is known on the path"""
    d = minus(lin(a), lin(b))
    if strict:
        d = minus(d, {1: -1})
    k = d.pop(1, 0)
    if not d:
        return k <= 0
    for e in bounds(st):
        e = dict(e)
        j = e.pop(1, 0)
        if e == d and j >= k:
            return True
    return False


def same(a, b):
    return lin(a) == lin(b)


def feasible(st):
    for k, v in st.facts.items():
        if k[0] == "bin" and k[1] in ("Eq", "Ne") and isinstance(v, int):
            d = minus(lin(k[2]), lin(k[3]))
            if not d and (k[1] == "Eq") != bool(v) or set(d) == {1} and (k[1] == "Eq") == bool(v):
                return False
    for e in bounds(st):
        if not set(e) - {1} and e.get(1, 0) > 0:
            return False
    return True


class T:
    """the translator"""

    def __init__(self, prog):
        self.prog = prog
        self.fns = [f for f in prog.fns.values() if own(f)]
        ds = [d for d, a in prog.adts.items() if d.startswith("ticc_lsp::") and a["kind"] == "struct" and
              any(prog.tstr(t).startswith("alloc::vec::Vec<usize") for i, t in fields(prog, d).values())]
        if len(ds) != 1:
            raise Anchor("table of line starts: %s" % ds)
        self.adt = ds[0]
        fs = fields(prog, self.adt)
        one = lambda p: [i for i, t in fs.values() if p(prog.tstr(t))]
        src, starts, done = one(lambda s: s.endswith("str")), one(lambda s: "Vec<usize" in s), one(lambda s: s == "bool")
        if not (len(src) == len(starts) == len(done) == 1):
            raise Anchor("parts of the table of line starts")
        self.src, self.starts, self.done = src[0], starts[0], done[0]

    def world(self, closed=(), twice=False):
        w = World(self.prog, closed)
        w.loop_bound = 2
        w.grow = w.tries = True
        w.twice = twice
        return w

    def part(self, v, i):
        while v[0] == "upd":
            if v[2] == (i,):
                return v[3]
            if v[2] and v[2][0] == i:
                return None
            v = v[1]
        return v[3][i] if v[0] == "adt" else ("proj", v, i)


def suffix(t, S, at):
    """the text from there on"""
    t = strip(t)
    return t[:2] == ("call", "index") and strip(t[2]) == S and t[3][0] == "adt" and short(t[3][1]).startswith("RangeFrom") and same(t[3][3][0], at)


def slice_(t, S, a, b):
    t = strip(t)
    if t[:2] != ("call", "index") or strip(t[2]) != S or t[3][0] != "adt":
        return False
    n, xs = t[3][1].split("::")[-1], t[3][3]
    if n == "Range":
        return same(xs[0], a) and same(xs[1], b)
    if n == "RangeFrom":
        return same(xs[0], a) and b == ("call", "len", S)
    if n == "RangeTo":
        return same(("c", 0), a) and same(xs[0], b)
    return False


def newline(st, c):
    """the character is a line feed: True, False or None"""
    v = st.facts.get(c)
    if v is not None:
        return v == 10 if isinstance(v, int) else False if 10 in v else None
    for op, yes in (("Eq", 1), ("Ne", 0)):
        for k in (("bin", op, c, NL), ("bin", op, NL, c)):
            v = st.facts.get(k)
            if isinstance(v, int):
                return bool(v) == bool(yes)
    return None


def following(st, S, v, at):
    """v is the place after the first line feed in the text from `at` on, as far as this path knows"""
    d = minus(lin(v), lin(at))
    one = d.pop(1, 0)
    if one != 1 or list(d.values()) != [1]:
        return False
    a = list(d)[0]
    for t in [k for e in st.trace for k in terms_all(e[1:])] + [k for q in st.facts for k in terms_all((q,))]:
        if atom(t) != a:
            continue
        if t[0] == "proj" and t[1][0] == "elem" and t[2] == 0:
            it = t[1][1]
            more = it[:2] == ("call", "more")
            q = it[2] if more else it
            while q[:2] == ("call", "more"):
                q = q[2]
            if q[:2] != ("call", "char_indices") or not suffix(q[2], S, at):
                continue
            if newline(st, ("proj", t[1], 1)) is True and all(newline(st, ("proj", ("elem", p), 1)) is False for p in before(it)):
                return True
        if t[0] == "proj" and t[2] == 0 and t[1][0] == "proj" and t[1][2] == ("v", 1) and t[1][1][:2] == ("call", "find"):
            f = t[1][1]
            if suffix(f[2], S, at) and f[3] == NL:
                return True
    return False


def before(it):
    while it[:2] == ("call", "more"):
        it = it[2]
        yield it


def none_left(st, S, at):
    """there is no line feed in the text from `at` on"""
    tr = st.trace
    for e in tr:
        if e[0] in ("full", "noiter") and e[1] is not None:
            q = e[1]
            while q[:2] == ("call", "more"):
                q = q[2]
            if q[:2] == ("call", "char_indices") and suffix(q[2], S, at):
                seen = [x[1] for x in tr if x[0] == "iter" and x[1] in (q, ("call", "more", q), ("call", "more", ("call", "more", q)))]
                return all(newline(st, ("proj", ("elem", x), 1)) is False for x in seen)
    for k, v in st.facts.items():
        if v == 0 and k[:2] == ("call", "discr") and k[2][:2] == ("call", "find") and suffix(k[2][2], S, at) and k[2][3] == NL:
            return True
    return False


def judge_table(t, rep, f, st, tr, lv, ob):
    """what a path does to the table"""
    S, L = ("proj", tr, t.src), ("proj", tr, t.starts)
    last = ("proj", ("proj", ("call", "last", L), ("v", 1)), 0)
    ob(t.part(lv, t.src) == S, "text", "is replaced")
    for e in st.trace:
        if e[0] == "grow" and (L in terms_all(e[1])):
            at = e[1][3] if e[1][:2] == ("call", "push") else last
            ob(following(st, S, e[2], at), "line start", "is not after the next line feed")
    ls = t.part(lv, t.starts)
    grown = []
    while ls is not None and ls[:2] == ("call", "push"):
        grown.append(ls[3])
        ls = ls[2]
    ob(ls == L, "line starts", "are replaced")
    end = t.part(lv, t.done)
    if end != ("proj", tr, t.done):
        ob(end in (("c", 1), ("c", True)), "table", "is forgotten to be complete")
        ob(none_left(st, S, grown[0] if grown else last), "table", "is taken to be complete although there are more lines")


def settled(t, st, tr, lv):
    """the table is complete"""
    d = t.part(lv, t.done)
    return d in (("c", 1), ("c", True)) or d == ("proj", tr, t.done) and st.facts.get(d) == 1


def top(L):
    return L[3] if L[:2] == ("call", "push") else ("proj", ("proj", ("call", "last", L), ("v", 1)), 0)


def length(L):
    n = 0
    while L[:2] == ("call", "push"):
        n, L = n + 1, L[2]
    return [("call", "len", L) if not n else ("bin", "Add", ("call", "len", L), ("c", n))]


def lens(L):
    yield ("call", "len", L)
    if L[:2] == ("call", "push"):
        yield length(L)[0]


def units(x):
    """x is the number of UTF-16 units of a text: that text"""
    while x[0] == "un" and str(x[1]).startswith("as "):
        x = x[2]
    if x[:2] == ("call", "count") and x[2][:2] == ("call", "encode_utf16"):
        return strip(x[2][2])
    return None


def judge_out(t, rep, f):
    """offset -> position"""
    prog = t.prog
    p, tr = ("sym", "place"), ("sym", "table")
    args = [tr if prog.adt_of(ty) == t.adt else p for ty in f.locals[1:f.nargs + 1]]
    off = ("proj", p, 0)
    it = t.world()
    n = 0
    seen = set()
    ob = lambda c, k, x: rep.ob(c, f.id + ": " + k, x, f.loc())
    for st, v in it.start(f, args):
        v = it.deep(st, v)
        if not feasible(st):
            continue
        n += 1
        lv = it.deep(st, st.env[("mem", tr)]) if ("mem", tr) in st.env else tr
        judge_table(t, rep, f, st, tr, lv, ob)
        S, L = ("proj", tr, t.src), t.part(lv, t.starts)
        ob(settled(t, st, tr, lv) or less(st, off, top(L)), "line", "is looked for in a table that does not reach the place")
        if v[0] != "adt":
            ob(False, "place", "is not known")
            continue
        ln, ch = v[3][index(prog, v[1], "line")], v[3][index(prog, v[1], "character")]
        b = ("call", "binary_search", L)
        bs = [k[2] for k in st.facts if k[:2] == ("call", "discr") and k[2][:3] == b and same(k[2][3], off)]
        good = False
        for q in bs:
            w = st.facts[("call", "discr", q)]
            if w == 0:
                good |= same(ln, ("proj", ("proj", q, ("v", 0)), 0))
            elif w == 1:
                good |= same(ln, ("bin", "Sub", ("proj", ("proj", q, ("v", 1)), 0), ("c", 1)))
            seen.add(w)
        for q in terms_all(ln):
            if q[:3] == ("call", "partition_point", L) and len(q) == 4:
                good |= same(ln, ("bin", "Sub", q, ("c", 1))) and below(it, st, q[3], off)
                seen |= {0, 1}
        ob(good, "line", "is not the one the place is in")
        x = units(ch)
        ob(x is not None and slice_(x, S, ("call", "index", L, strip_cast(ln)), off), "character", "is not the number of UTF-16 units from the start of the line")
    ob(seen >= {0, 1}, "places", "are found in some cases only")
    return n


def strip_cast(t):
    while t[0] == "un" and str(t[1]).startswith("as "):
        t = t[2]
    return t


def below(it, st, fn, off):
    """the predicate of a binary search is: starts at or before the place"""
    x = ("sym", "some start")
    for s, r in it.apply(fn, [x], st.copy(), 0):
        r = it.deep(s, r)
        k = [y for y in terms_all(r)]
        if r in (("c", 0), ("c", 1)):
            if r[1] and not less(s, x, off) or not r[1] and not less(s, off, x, True):
                return False
        elif r[0] == "bin":
            s2 = s.copy()
            s2.facts[r] = 1
            s3 = s.copy()
            s3.facts[r] = 0
            if not less(s2, x, off) or not less(s3, off, x, True):
                return False
        else:
            return False
    return True


def judge_in(t, rep, f):
    """position -> offset"""
    prog = t.prog
    p, tr = ("sym", "place"), ("sym", "table")
    args = [tr if prog.adt_of(ty) == t.adt else p for ty in f.locals[1:f.nargs + 1]]
    adt = prog.adt_of([ty for ty in f.locals[1:f.nargs + 1] if prog.adt_of(ty) != t.adt][0])
    line, char = ("proj", p, index(prog, adt, "line")), ("proj", p, index(prog, adt, "character"))
    it = t.world(twice=True)
    n = 0
    seen = set()
    ob = lambda c, k, x: rep.ob(c, f.id + ": " + k, x, f.loc())
    nxt = ("bin", "Add", line, ("c", 1))
    for st, v in it.start(f, args):
        v = it.deep(st, v)
        if not feasible(st):
            continue
        n += 1
        lv = it.deep(st, st.env[("mem", tr)]) if ("mem", tr) in st.env else tr
        judge_table(t, rep, f, st, tr, lv, ob)
        S, L = ("proj", tr, t.src), t.part(lv, t.starts)
        ob(settled(t, st, tr, lv) or any(less(st, nxt, x, True) for x in lens(L)), "line", "is looked for in a table that does not reach it")
        if v[0] != "adt" or v[1] != POS:
            ob(False, "place", "is not known")
            continue
        r = v[3][0]
        end = ("call", "len", S)

        def start(i):
            """the start of a line: its terms, or () if there is none, or None"""
            for k, w in st.facts.items():
                if k[:2] == ("call", "discr") and k[2][:3] == ("call", "get", L) and same(k[2][3], i):
                    return [("proj", ("proj", k[2], ("v", 1)), 0), ("call", "index", L, k[2][3]), ("call", "index", L, atom(k[2][3]))] if w == 1 else ()
            for x in lens(L):
                if less(st, x, i):
                    return ()
                if less(st, i, x, True):
                    return [k for e in st.trace for k in terms_all(e[1:]) if k[:3] == ("call", "index", L) and same(k[3], i)]
            return None
        a, b = start(line), start(nxt)
        ob(a is not None, "line", "is not looked for")
        if a is None:
            continue
        if not a:
            ob(same(r, end), "place after the last line", "is not the end of the text")
            seen.add("after")
            continue
        if b is None:
            ob(False, "end of the line", "is not looked for")
            continue
        ends = [end] if not b else [("bin", "Sub", x, ("c", 1)) for x in b]
        its = [e for e in st.trace if e[0] in ("iter", "noiter", "full") and e[1] is not None]
        rows = []
        for e in its:
            q = e[1]
            while q[:2] == ("call", "more"):
                q = q[2]
            if q[:2] == ("call", "char_indices") and any(slice_(q[2], S, x, y) for x in a for y in ends):
                rows.append((e[0], e[1], q))
        if not rows:
            ob(False, "characters", "of another line are counted")
            continue
        q = rows[0][2]
        elems = []
        for x in (q, ("call", "more", q), ("call", "more", ("call", "more", q))):
            if ("iter", x) in its:
                elems.append(("elem", x))
        size = ("c", 0)
        hit = None
        for e in elems:
            size = ("bin", "Add", size, ("call", "len_utf16", ("proj", e, 1)))
            if less(st, char, size, True):
                hit = e
                break
            ob(less(st, size, char), "character", "is passed without counting its UTF-16 units")
        if hit is not None:
            seen.add("in")
            ob(any(same(r, ("bin", "Add", x, ("proj", hit, 0))) for x in a), "place", "is not where the character starts")
        else:
            seen.add("past")
            ob(any(k in ("full", "noiter") for k, *_ in rows), "place", "is taken to be past the end of the line too early")
            ob(any(same(r, y) for y in ends), "place past the end of a line", "is not the end of that line")
    ob(seen >= {"after", "in", "past"}, "places", "are found in some cases only: " + ", ".join(sorted(seen)))
    return n


def judge_pair(t, rep, f, closed):
    """a range is its start and its end"""
    prog = t.prog
    p, tr = ("sym", "range"), ("sym", "table")
    args = [tr if prog.adt_of(ty) == t.adt else p for ty in f.locals[1:f.nargs + 1]]
    it = t.world(closed)
    n = 0
    for st, v in it.start(f, args):
        v = it.deep(st, v)
        n += 1
        ok = v[0] == "adt" and len(v[3]) == 2
        for i, x in enumerate(v[3]) if ok else ():
            y = x[3:] if x[0] == "ret" and x[2] in closed else x[2:] if x[:2] == ("call", short(closed[0])) else ()
            ok &= ("proj", p, i) in y and all(z == ("proj", p, i) or tr in terms_all(z) for z in y)
        rep.ob(ok, f.id + ": range", "is not from the place of its start to that of its end", f.loc())
    return n


def judge_new(t, rep):
    """tables start with the first line"""
    prog = t.prog
    n = 0
    for f in t.fns:
        if f.kind != "fn" or f.derived or prog.adt_of(f.locals[0]) != t.adt:
            continue
        a = [("sym", "a%d" % i) for i in range(f.nargs)]
        it = t.world()
        for st, v in it.start(f, a):
            v = it.deep(st, v)
            n += 1
            ok = v[0] == "adt" and items(v[3][t.starts]) == [("c", 0)] and (v[3][t.done] in (("c", 0), ("c", False)) or
                v[3][t.done][:2] == ("call", "is_empty") and strip(v[3][t.done][2]) in a) and strip(v[3][t.src]) in a
            rep.ob(ok, f.id + ": table", "does not start with the first line of the text", f.loc())
    return n


KINDS = {"Keyword": "keyword", "Type": "type", "Ctor": "type", "Value": "variable", "Function": "function", "Operator": "operator",
         "Punctuation": "punctuation", "Number": "number", "Comment": "comment", "TypeVariable": "typeParameter", "String": "string"}


def legend(t):
    """the announced names of kinds"""
    prog = t.prog
    f = [f for f in t.fns if f.kind == "fn" and str(prog.adt_of(f.locals[0])).endswith("::ServerCapabilities") and f.nargs == 0]
    if len(f) != 1:
        raise Anchor("capabilities")
    it = World(prog)
    out = []
    for st, v in it.start(f[0], []):
        v = it.deep(st, v)
        for x in every(v):
            if x[1].endswith("::SemanticTokensLegend"):
                out.append((items(x[3][index(prog, x[1], "token_types")]), items(x[3][index(prog, x[1], "token_modifiers")])))
    if not out or any(a is None for a, b in out):
        raise Anchor("legend of the tokens")
    name = lambda x: x[1] if x[0] in ("s", "str") else next((n for y in x[1:] if isinstance(y, tuple) for n in [name(y)] if n), None)
    return [[name(x) for x in a] for a, b in out], f[0]


def judge_tokens(t, rep):
    prog = t.prog
    fs = [f for f in t.fns if f.kind == "fn" and "lsp_types::SemanticToken>" in prog.tstr(f.locals[0]).replace("lsp_types::semantic_tokens::", "lsp_types::")
          and prog.tstr(f.locals[0]).startswith("alloc::vec::Vec")]
    if len(fs) != 1:
        raise Anchor("tokens of the editor: %s" % [f.id for f in fs])
    f = fs[0]
    used = {prog.adt_of(x) for g in t.fns for x in g.locals}
    kinds = [d for d in prog.adts if d.startswith("ticc::") and d.endswith("::TokenKind") and d in used]
    toks = [d for d, a in prog.adts.items() if d.startswith("ticc::") and a["kind"] == "struct" and kinds and d in used and
            any(prog.adt_of(x["t"]) == kinds[0] for x in a["variants"][0]["f"]) and any(prog.adt_of(x["t"]) == SPAN for x in a["variants"][0]["f"])]
    if len(kinds) != 1 or len(toks) != 1:
        raise Anchor("tokens of the compiler")
    kind = kinds[0]
    k_i = [i for i, x in enumerate(prog.adts[toks[0]]["variants"][0]["f"]) if prog.adt_of(x["t"]) == kind][0]
    s_i = [i for i, x in enumerate(prog.adts[toks[0]]["variants"][0]["f"]) if prog.adt_of(x["t"]) == SPAN][0]
    names = {x["n"]: i for i, x in enumerate(prog.adts[kind]["variants"])}
    # the table of kinds
    tables = [g for g in t.fns if g.kind == "fn" and g.nargs == 1 and prog.adt_of(g.locals[1]) == kind and prog.tstr(g.locals[0]) in ("u32", "usize")]
    lg, cap = legend(t)
    n = 0
    for g in tables:
        for nm, vi in names.items():
            it = World(prog)
            for st, v in it.start(g, [("adt", kind, vi, ())]):
                v = strip_cast(it.deep(st, v))
                n += 1
                want = KINDS.get(nm)
                ok = v[0] == "c" and all(v[1] < len(x) and (want is None or x[v[1]] == want) for x in lg)
                rep.ob(ok, g.id + ": " + nm, "is announced as another kind of token", g.loc())
    rep.floor("kinds of tokens", n, 8)
    # the listing
    unit = ("sym", "unit")
    queries = {g.id for g in prog.fns.values() if g.crate == "ticc" and g.kind == "fn" and g.id.startswith("ticc::CompilationUnit::")}
    out = [g.id for g in t.fns if "::ToLsp" in g.id and prog.adt_of(g.locals[1]) in (POS, SPAN)]
    it = t.world(queries | {g.id for g in tables} | set(out), twice=True)
    it.loop_bound = 6
    ob = lambda c, k, x: rep.ob(c, f.id + ": " + k, x, f.loc())
    m = 0
    seen = set()
    sem = None
    for st, v in it.start(f, [unit]):
        v = it.deep(st, v)
        if not feasible(st):
            continue
        m += 1
        xs = items(v)
        src = [("ret", i, e[1]) + tuple(e[2]) for i, e in enumerate(st.trace) if e[0] == "do" and "str" in prog.tstr(prog.fns[e[1]].locals[0])]
        tk = [("ret", i, e[1]) + tuple(e[2]) for i, e in enumerate(st.trace) if e[0] == "do" and (toks[0] in prog.tstr(prog.fns[e[1]].locals[0]) or
              "Iterator" in prog.tstr(prog.fns[e[1]].locals[0])) and "token" in short(e[1])]
        ob(len(tk) == 1 and all(x[3] == unit or x[3][0] == "after" for x in tk), "tokens", "are those of another file, or not asked for once")
        ob(all(x[3] == unit or x[3][0] == "after" for x in src), "text", "is that of another file")
        if xs is None or len(tk) != 1:
            ob(False, "tokens", "are not all given")
            continue
        its = [e for e in st.trace if e[0] == "iter"]
        seq = tk[0]
        elems = [("elem", x) for x in (seq, ("call", "more", seq), ("call", "more", ("call", "more", seq))) if any(strip(e[1]) == x for e in its)]
        ob(any(e[0] in ("full", "noiter") and e[1] is not None and seq in terms_all((e[1],)) and not any(y[0] == "elem" for y in terms_all((e[1],))) for e in st.trace),
           "tokens", "are not all given")
        ob(len(xs) == len(elems), "tokens", "are not all given, or more")
        seen.add(len(elems))
        if len(xs) != len(elems):
            continue
        pl, pc = ("c", 0), ("c", 0)         # the last token's line and column
        for x, e in zip(xs, elems):
            if x[0] != "adt":
                ob(False, "token", "is not known")
                break
            sem = x[1]
            g = lambda k: x[3][index(prog, sem, k)]
            a = ("proj", ("proj", ("proj", e, s_i), 0), 0)
            b = ("proj", ("proj", ("proj", e, s_i), 1), 0)
            text = units(g("length"))
            ob(text is not None and any(slice_(text, strip(s), a, b) for s in src), "length", "is not the number of UTF-16 units of the token")
            ty = g("token_type")
            ob(ty[0] == "ret" and ty[2] in {h.id for h in tables} and ty[3] == ("proj", e, k_i) or (not tables and ("proj", e, k_i) in terms_all((ty,))),
               "kind", "is not that of the token")
            ob(g("token_modifiers_bitset") == ("c", 0), "modifiers", "are made up")
            got = place(t, st, its, src, e, elems, a, s_i, pl, pc, ob, seen)
            if got is None:
                ob(False, "place", "of a token is not known")
                break
            nl, nc = got
            ob(same(g("delta_line"), ("bin", "Sub", nl, pl)), "line", "of a token is not counted from the token before")
            moved = minus(lin(nl), lin(pl))
            k = newer(st, nl, pl)
            if k is None:
                ob(False, "column", "of a token is given without looking if it is in a new line")
            else:
                want = nc if k else ("bin", "Sub", nc, pc)
                ob(same(g("delta_start"), want), "column", "of a token is not counted from " + ("the start of its line" if k else "the token before"))
            pl, pc = nl, nc
    ob(seen >= {0, 1, 2} and {"new line", "same line"} <= seen, "tokens", "are listed in some cases only: %s" % sorted(map(str, seen)))
    return m


def newer(st, nl, pl):
    """the line is another one than before"""
    d = minus(lin(nl), lin(pl))
    if not d:
        return False
    if set(d) == {1}:
        return True
    for k, v in st.facts.items():
        if k[0] == "bin" and isinstance(v, int) and k[1] in ("Eq", "Ne"):
            e = minus(lin(k[2]), lin(k[3]))
            if e == d or minus({}, e) == d:
                return (k[1] == "Eq") != bool(v)
    if less(st, pl, nl, True):
        return True
    if less(st, nl, pl):
        return False
    return None


def place(t, st, its, src, e, elems, a, s_i, pl, pc, ob, seen):
    """line and column of a token, counted on from the one before"""
    # asked from the table of lines
    for d in st.trace:
        if d[0] in ("do", "call") and "::ToLsp" in str(d[1]):
            x = [y for y in d[2] if y in (("proj", ("proj", e, s_i), 0), ("proj", e, s_i))]
            if x:
                r = ("ret", st.trace.index(d), d[1]) + tuple(d[2]) if d[0] == "do" else ("call", short(d[1])) + tuple(d[2])
                if x[0] == ("proj", e, s_i):
                    r = ("proj", r, 0)
                return ("proj", r, 0), ("proj", r, 1)
    i = elems.index(e)
    prev = ("c", 0) if i == 0 else ("proj", ("proj", ("proj", elems[i - 1], s_i), 0), 0)
    rows = []
    for ev in st.trace:
        if ev[0] in ("iter", "noiter", "full") and ev[1] is not None:
            q = ev[1]
            while q[:2] == ("call", "more"):
                q = q[2]
            if q[:2] == ("call", "chars") and any(slice_(q[2], strip(s), prev, a) for s in src):
                rows.append((ev[0], ev[1], q))
    if not rows:
        return None
    ob(any(k in ("full", "noiter") for k, *_ in rows), "place", "of a token is not counted up to its start")
    q = rows[0][2]
    nl, nc = pl, pc
    for x in (q, ("call", "more", q), ("call", "more", ("call", "more", q))):
        if ("iter", x) in [(r[0], r[1]) for r in rows]:
            w = newline(st, ("elem", x))
            if w is None:
                return None
            seen.add("new line" if w else "same line")
            if w:
                nl, nc = ("bin", "Add", nl, ("c", 1)), ("c", 0)
            else:
                nc = ("bin", "Add", nc, ("call", "len_utf16", ("elem", x)))
    return nl, nc


def run(prog, rep):
    t = T(prog)
    impl = lambda tr, p: [f for f in t.fns if f.kind == "fn" and "::" + tr in f.id and f.nargs == 2 and p(str(prog.adt_of(f.locals[1])))]
    out, outs = impl("ToLsp", lambda a: a == POS), impl("ToLsp", lambda a: a == SPAN)
    in_, ins = impl("ToTicc", lambda a: a.endswith("::Position")), impl("ToTicc", lambda a: a.endswith("::Range"))
    for what, l in (("place to the editor", out), ("range to the editor", outs), ("place from the editor", in_), ("range from the editor", ins)):
        if len(l) != 1:
            raise Anchor("conversion of a %s: %s" % (what, [f.id for f in l]))
    rep.floor("tables of lines made", judge_new(t, rep), 1)
    rep.floor("paths of a place to the editor", judge_out(t, rep, out[0]), 4)
    rep.floor("paths of a place from the editor", judge_in(t, rep, in_[0]), 12)
    rep.floor("ranges converted", judge_pair(t, rep, outs[0], [out[0].id]) + judge_pair(t, rep, ins[0], [in_[0].id]), 2)
    rep.floor("paths of the tokens", judge_tokens(t, rep), 10)
