"""C08: every diagnostic is reported, and a program with errors is never translated or run."""
from ..mir import Anchor
from ..front import show, OPTION, NONE
from ..world import World, path
from . import c19
from .c04 import terms
from .c09 import K as K9, UNIT

RULE = ("on every path of the diagnostics query, with helpers entered, what it yields is one diagnostic for each one recorded for each "
        "item of the unit and for each lint, with its own extent and severity and its message put together from all segments; on "
        "every path of the command line tool, anything that translates or runs the program comes after the diagnostics of the unit "
        "were computed and printed and none was an error in it or an imported file, and a path with an error ends in failure")
ASSUMPTIONS = ["process::exit ends the program"]

DIAG = "ticc::Diagnostic"
RAW = "ticc::error::RawDiagnostic"
EXIT = ("exit",)


def raw(prog):
    ds = [d for d in prog.adts if d.endswith("::RawDiagnostic")]
    if len(ds) != 1:
        raise Anchor("recorded diagnostics")
    return ds[0]


def direct(k9, fid):
    """functions called without dispatch, for the same unit: compiling one can compile a built-in one"""
    got, q = {fid}, [fid]
    while q:
        for y in k9.edges(k9.prog.fns[q.pop()])[0]:
            f = k9.prog.fns[y]
            if y not in got and (f.kind != "fn" or any(UNIT in k9.prog.tstr(x) for x in f.locals[1:f.nargs + 1])):
                got.add(y)
                q.append(y)
    return got


def outermost(k9, fs):
    return [f for f in fs if not any(f.id in direct(k9, g.id) for g in fs if g is not f)]


def judge_report(prog, rep, k9):
    rd = raw(prog)
    msg = [prog.adt_of(f["t"]) for f in prog.adts[rd]["variants"][0]["f"] if (prog.adt_of(f["t"]) or "").startswith("ticc::")]
    own = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and not f.derived]
    lint = [f for f in own if f.nargs == 1 and prog.adt_of(f.locals[1]) == UNIT and
            prog.tstr(f.locals[0]).startswith("alloc::vec::Vec<" + rd)]
    outer = outermost(k9, lint)
    fmt = [f for f in own if prog.tstr(f.locals[0]) == "alloc::string::String" and
           any(prog.adt_of(x) in msg and prog.adts[prog.adt_of(x)]["kind"] == "struct" for x in f.locals[1:f.nargs + 1])]
    q = [f for f in own if f.nargs == 1 and prog.adt_of(f.locals[1]) == UNIT and any(y.id in direct(k9, f.id) for y in fmt) and
         f not in fmt and f not in lint]
    q = outermost(k9, q)
    if len(outer) != 1 or len(fmt) != 1 or len(q) != 1:
        raise Anchor("diagnostics of a unit: %d, %d, %d" % (len(outer), len(fmt), len(q)))
    lint, fmt, q = outer[0], fmt[0], q[0]
    closed = {lint.id, fmt.id, k9.drive.id} | {f.id for f in k9.whole}
    it = World(prog, closed)
    unit = ("sym", "unit")
    n = 0
    rf = {f["n"]: i for i, f in enumerate(prog.adts[rd]["variants"][0]["f"])}
    df = {f["n"]: i for i, f in enumerate(prog.adts[DIAG]["variants"][0]["f"])}
    got_all = set()
    for st, v in it.start(q, [unit]):
        v = it.deep(st, v)
        view = c19.View(prog, k9, st, unit, ("sym", "nopos"), {lint.id})
        lints = [("ret", i, lint.id) for i, e in enumerate(st.trace) if e[0] == "do" and e[1] == lint.id]
        union = set()
        early = {x for e in st.trace if e[0] in ("iter", "noiter") for x in [source(view, e[1], lint)] if x}
        for s, es in it.elems(v, st.copy(), 1):
            n += 1
            view.st = s
            seen = {}
            for e in s.trace:
                if e[0] in ("iter", "noiter"):
                    x = source(view, e[1], lint)
                    if x:
                        seen.setdefault(x, set()).add(e[0])
            if any(len(x) > 1 for x in seen.values()):
                continue
            got = []
            for e in es:
                e = it.deep(s, e)
                w = of_what(prog, view, e, lint, fmt, rf, df, s, it)
                rep.ob(w is not None, q.id, "reports something else, or with another extent, severity or message", q.loc())
                got.append(w)
            union |= set(got)
            for x in seen:
                if "iter" in seen[x] and x not in early:
                    rep.ob(got.count(x) == 1, q.id + ": " + x, "are reported %d times" % got.count(x), q.loc())
                if "noiter" in seen[x]:
                    rep.ob(got.count(x) == 0, q.id + ": " + x, "are reported although there are none", q.loc())
        for x in early:
            if any(e[0] == "iter" and source(view, e[1], lint) == x for e in st.trace) and \
                    not any(e[0] == "noiter" and source(view, e[1], lint) == x for e in st.trace):
                rep.ob(x in union, q.id + ": " + x, "are not reported", q.loc())
        got_all |= union
    rep.ob({"diagnostics", "lints"} <= got_all, q.id, "reports only %s" % sorted(map(str, got_all)), q.loc())
    return n, q, fmt, lint


def source(view, t, lint):
    if view.path(t) == ("w", "items", "*", "diagnostics"):
        return "diagnostics"
    while t[0] == "call" and t[1] in ("into_iter", "iter") and len(t) == 3:
        t = t[2]
    if t[0] == "ret" and t[2] == lint.id:
        return "lints"
    return None


def of_what(prog, view, e, lint, fmt, rf, df, s, it):
    if e[0] != "adt" or e[1] != DIAG:
        return None
    span, sev, msg = (e[3][df[x]] for x in ("span", "severity", "message"))
    def base(t, n):
        if t[0] == "proj" and t[2] == rf[n]:
            t = t[1]
            if t[0] == "elem":
                return source(view, t[1], lint)
        return None
    b = base(span, "span")
    if b is None or base(sev, "severity") != b:
        return None
    if msg[0] != "ret" or msg[2] != fmt.id or not any(base(y, "message") == b for y in msg[3:]):
        return None
    return b


def judge_message(prog, rep, fmt):
    """each kind of segment is appended"""
    unit = [i for i in range(1, fmt.nargs + 1) if prog.adt_of(fmt.locals[i]) == UNIT]
    args = [("sym", "a%d" % i) for i in range(1, fmt.nargs + 1)]
    roots = {a: ("a%d" % i, fmt.locals[i]) for i, a in enumerate(args, 1)}
    find = {f.id for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and f.nargs == 2 and
            prog.tstr(f.locals[0]) == OPTION + "<&ticc::compiler::ir::Def>" and prog.tstr(f.locals[2]) == "ticc::compiler::ir::Symbol"}
    pr = {f.id for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and f.nargs == 3 and
          prog.tstr(f.locals[2]) == "&ticc::compiler::ir::Type" and prog.tstr(f.locals[3]) == "&mut alloc::string::String"}
    if not pr:
        raise Anchor("printer of types")
    it = World(prog, find | pr)
    n = 0
    seg = None
    kinds = set()
    for st, v in it.start(fmt, args):
        v = it.deep(st, v)
        if not any(e[0] == "iter" for e in st.trace):
            continue
        vi = None
        for x, f in st.facts.items():
            if x[:2] == ("call", "discr") and x[2][0] == "elem" and isinstance(f, int):
                p = path(prog, x[2], roots)
                if p and p[-1] == "*":
                    vi, el = f, x[2]
                    seg = [prog.adt_of(t["t"]) for d, a in prog.adts.items() if d.endswith("::RawMessage") for t in a["variants"][0]["f"]]
        if vi is None:
            rep.ob(False, fmt.id, "does not look at the kind of a segment", fmt.loc())
            continue
        n += 1
        sd = [d for d in prog.adts if d.endswith("::RawSegment")]
        if len(sd) != 1:
            raise Anchor("segments of a message")
        name = prog.adts[sd[0]]["variants"][vi]["n"]
        kinds.add(name)
        key = fmt.id + ": " + name
        parts = [y for e in [v] for y in terms(e)]
        evs = [a for e in st.trace if e[0] in ("do", "call") for a in (e[2] if isinstance(e[2], tuple) else ())]
        payload = lambda y: y[0] == "proj" and y[1][0] == "proj" and y[1][1] == el or y[0] == "proj" and y[1] == el
        has = lambda ys: any(payload(z) for y in ys if isinstance(y, tuple) for z in terms(y))
        if name == "Ty":
            ok = any(e[0] == "do" and e[1] in pr and has(e[2]) for e in st.trace) and v[0] == "after"
        elif name == "Symbol":
            did = [e for e in st.trace if e[0] == "do" and e[1] in find and has(e[2])]
            found = None
            for x, f in st.facts.items():
                if x[:2] == ("call", "discr") and x[2][0] == "ret" and x[2][2] in find:
                    found = f == 1
            if found is False:
                ok = True
            else:
                ok = bool(did) and v[:2] == ("call", "push_str") and any(
                    y[0] == "call" and y[1] == "index" and any(z[0] == "ret" and z[2] in find for z in terms(y)) for y in terms(v[3]))
        elif name in ("Str", "String"):
            ok = v[:2] == ("call", "push_str") and has([v[3]])
        else:
            ok = has(evs) or has([v])
        rep.ob(ok, key, "is not part of the message", fmt.loc())
    rep.ob(len(kinds) >= 5, fmt.id, "handles only %s" % sorted(kinds), fmt.loc())
    return n


def judge_tool(prog, rep, q):
    mains = [f for f in prog.fns.values() if f.crate == "ticc.bin" and f.id == "ticc::main"]
    if len(mains) != 1:
        raise Anchor("main of the tool")
    f = mains[0]
    # what compiles, translates or runs a unit: the public methods of the unit
    diag = {q.id} | {g for g in prog.fns if q.id in prog.cg().get(g, ()) and prog.fns[g].nargs == 1 and
                     prog.adt_of(prog.fns[g].locals[1]) == UNIT and prog.fns[g].crate == "ticc"}
    runs = {g.id for g in prog.fns.values() if g.crate == "ticc" and g.kind == "fn" and g.nargs >= 1 and prog.adt_of(g.locals[1]) == UNIT and
            any(prog.fns[y].crate.startswith("ticc_core") or prog.fns[y].crate.startswith("ticc_eval")
                for y in prog.reachable([g.id]) if y in prog.fns) and g.id not in diag}
    inner = {y for g in runs for y in prog.cg().get(g, ())}
    # a helper of the tool that only prints, times or runs a closure is opaque
    printers = {g.id for g in prog.fns.values() if g.crate == "ticc.bin" and g.kind == "fn" and not g.derived and
                any(DIAG in prog.tstr(x) or "impl Iterator" in prog.tstr(x) for x in g.locals[1:g.nargs + 1]) and
                any("emit" in y for y in outside(prog, g))}
    threads = {g.id for g in prog.fns.values() if g.crate == "ticc.bin" and g.kind == "fn" and not g.derived and
               any("impl" in prog.tstr(x) and "FnOnce" in prog.tstr(x) for x in g.locals[1:g.nargs + 1])}
    res = {g.id for g in prog.fns.values() if g.crate == "ticc.bin" and g.kind == "fn" and g.nargs >= 1 and g is not f and
           "Resolver" in prog.tstr(g.locals[0])}
    if not runs or not printers or not res:
        raise Anchor("parts of the tool")
    it = World(prog, diag | runs | printers | threads | res)
    it.loop_bound = 1
    ends = [(st, True) for st, v in it.start(f, [])] + [(st, False) for st in diverged(it)]
    sev = [i for i, v in enumerate(prog.adts["ticc::Severity"]["variants"]) if v["n"] == "Error"][0]
    si = [i for i, x in enumerate(prog.adts[DIAG]["variants"][0]["f"]) if prog.adt_of(x["t"]) == "ticc::Severity"][0]
    n = 0
    seen = set()
    for st, normal in ends:
        n += 1
        tr = st.trace
        first = [i for i, e in enumerate(tr) if e[0] == "do" and e[1] in diag]
        units = {root(e[2][0]) for e in tr if e[0] == "do" and e[1] in diag}
        act = [i for i, e in enumerate(tr) if e[0] == "do" and (e[1] in runs or e[1] in threads and captures(prog, it, e, runs)) or
               e[0] == "call" and ("fs::write" in str(e[1]) or "io::stdio::_print" in str(e[1]))]
        # the severities
        err = None
        for x, v in st.facts.items():
            if x[0] == "bin" and x[1] in ("Eq", "Ne") and isinstance(v, int):
                a, b = x[2], x[3]
                if a[0] == "c" or a[0] == "adt":
                    a, b = b, a
                if a[:2] == ("call", "discr"):
                    a = a[2]
                c = b[1] if b[0] == "c" else b[2] if b[0] == "adt" else None
                if c is not None and is_sev(a, diag, si):
                    e = (x[1] == "Eq") == bool(v)
                    err = e if c == sev else (not e)
            elif x[:2] == ("call", "discr") and is_sev(x[2], diag, si) and isinstance(v, int):
                err = v == sev
        none = any(e[0] == "noiter" and of_unit(e[1], diag) for e in tr)
        some_ = any(e[0] == "iter" and of_unit(e[1], diag) for e in tr)
        if err is False and not any(e[0] == "full" and (e[1] is None or any(y[0] == "ret" and y[2] in diag for y in terms(e[1]))) for e in tr):
            err = None      # only known of one of them
        if none and some_:
            continue        # not two answers for the same unit
        imported = None
        at = None
        for x, v in st.facts.items():
            if x[:2] == ("call", "discr") and isinstance(v, int) and from_root(x[2], res) and taken(x[2]):
                imported = v == 1
                at = x[2]
        order = [i for i, e in enumerate(tr) if e[0] == "call" and e[2] and at is not None and ("call", short(e[1])) + tuple(e[2]) == at]
        pr = [(i, e) for i, e in enumerate(tr) if e[0] == "do" and e[1] in printers]
        if act:
            seen.add("act")
            i = act[0]
            key = f.id + ": " + (short(tr[i][1]))
            rep.ob(bool(first) and first[0] < i, key, "happens before the program was checked", f.loc())
            rep.ob(none or err is False, key, "happens without knowing that there are no errors" if err is None else
                   "happens although there is an error", f.loc())
            rep.ob(imported is False, key, "happens without knowing that imported files have no errors" if imported is None else
                   "happens although an imported file has errors", f.loc())
            if order and first:
                rep.ob(first[0] < order[0] < i, key, "asks for errors of imported files before they were compiled", f.loc())
            rep.ob(any(j < i and printed(e, diag, it, st) for j, e in pr), key, "happens before the diagnostics were all printed", f.loc())
        if err or imported:
            seen.add("imported" if imported else "error")
            rep.ob(not normal and exited(tr), f.id + ": error", "does not end in failure", f.loc())
            if imported:
                rep.ob(any(any(y == at or y[0] == "proj" and inside(y, at) for a in e[2] for y in terms(a)) for j, e in pr), f.id + ": error",
                       "in an imported file is not printed", f.loc())
            else:
                rep.ob(any(printed(e, diag, it, st) for j, e in pr), f.id + ": error", "is not printed", f.loc())
    rep.floor("printed diagnostics", sum(judge_printer(prog, rep, prog.fns[g]) for g in printers), 2)
    rep.ob({"act", "imported", "error"} <= seen, f.id, "handles only %s" % sorted(seen), f.loc())
    return n


def judge_printer(prog, rep, f):
    """the one that prints diagnostics: each with its severity, extent and message, against the text given"""
    args = [("sym", "a%d" % i) for i in range(1, f.nargs + 1)]
    roots = {a: ("a%d" % i, f.locals[i]) for i, a in enumerate(args, 1)}
    fi = {x["n"]: i for i, x in enumerate(prog.adts[DIAG]["variants"][0]["f"])}
    it = World(prog, ())
    it.loop_bound = 1
    kinds = set()
    n = 0
    texts = [a for i, a in enumerate(args, 1) if prog.tstr(f.locals[i]) in ("&str", "&alloc::string::String")]
    for st, v in it.start(f, args):
        els = {("elem", e[1]) for e in st.trace if e[0] == "iter" and any(y in args for y in terms(e[1]))}
        for el in els:
            n += 1
            emit = [it.deep(st, a) for e in st.trace if e[0] == "call" and "codespan_reporting::term::emit" in str(e[1]) for a in e[2]]
            ts = [y for a in emit for y in terms(a)]
            want = severity(prog, st, ("proj", el, fi["severity"]))
            kinds.add(want)
            shown = {prog.adts[y[1]]["variants"][y[2]]["n"] if y[1] in prog.adts else y[2] for y in ts
                     if y[0] == "adt" and y[1].endswith("codespan_reporting::diagnostic::Severity")} | \
                {y[1].capitalize() for y in ts if y[0] == "call" and len(y) == 2 and y[1] in ("error", "warning", "note", "help", "bug")}
            key = f.id + ": " + str(want)
            rep.ob(bool(emit), key, "is not printed", f.loc())
            rep.ob(shown in ({want}, {SEVERITY.get(want)}), key, "is printed as %s" % sorted(map(str, shown)), f.loc())
            rep.ob(("proj", el, fi["message"]) in ts, key, "is printed without its message", f.loc())
            rep.ob(any(y[0] == "adt" and y[1].endswith("ops::range::Range") and len(y[3]) == 2 and
                       all(at_end(y[3][i], el, fi["span"], i) for i in (0, 1)) for y in ts), key, "is printed with another extent", f.loc())
            rep.ob(len(texts) >= 2 and all(t in ts or any(t in terms(a) for e in st.trace if e[0] == "call" for a in e[2]) for t in texts), key,
                   "is printed without the file it is in", f.loc())
    rep.ob({"Error", "Warning"} <= kinds, f.id, "prints only %s" % sorted(map(str, kinds)), f.loc())
    return n


# the variants of codespan_reporting's severity
SEVERITY = {"Error": 3, "Warning": 2}


def severity(prog, st, t):
    vs = [v["n"] for v in prog.adts["ticc::Severity"]["variants"]]
    for x, v in st.facts.items():
        if not isinstance(v, int):
            continue
        if x == ("call", "discr", t):
            return vs[v]
        if x[0] == "bin" and x[1] in ("Eq", "Ne"):
            a, b = x[2], x[3]
            if a[0] in ("c", "adt"):
                a, b = b, a
            if a in (t, ("call", "discr", t)) and b[0] in ("c", "adt"):
                c = b[1] if b[0] == "c" else b[2]
                return vs[c] if (x[1] == "Eq") == bool(v) else vs[1 - c] if len(vs) == 2 else None
    return None


def at_end(t, el, span, i):
    while t[0] == "un" and t[1].startswith("as "):
        t = t[2]
    p = []
    while t[0] == "proj":
        p.append(t[2])
        t = t[1]
    return t == el and p[-1] == span and p[-2:-1] == [i] or False


def of_unit(t, diag):
    """the diagnostics of the unit, perhaps collected"""
    while t[0] == "call" and t[1] in ("push", "iter", "into_iter", "clone") and len(t) > 2:
        t = t[-1]
    if t[0] == "elem":
        t = t[1]
    return t[0] == "ret" and t[2] in diag


def short(s):
    return str(s).split("::")[-1]


def inside(y, at):
    while y[0] == "proj":
        y = y[1]
    return y == at


def outside(prog, g):
    return {str(b["t"]["f"].get("r") or b["t"]["f"].get("d") or "") for b in g.blocks if b["t"]["k"] == "call"}


def diverged(it):
    return [x if not isinstance(x, tuple) else x[0] for x in it.diverged]


def exited(tr):
    last = [e for e in tr if e[0] == "call" and "process::exit" in str(e[1])]
    return bool(last) and last[-1][2] and last[-1][2][0][0] == "c" and last[-1][2][0][1] != 0


def root(t):
    while t[0] == "after":
        t = t[3]
    return t


def is_sev(t, diag, si):
    return t[0] == "proj" and t[2] == si and t[1][0] == "elem" and any(y[0] == "ret" and y[2] in diag for y in terms(t[1]))


def from_root(t, res):
    return any(y[0] == "ret" and y[2] in res for y in terms(t))


def taken(t):
    """the errors of imported files: an optional field behind the resolver's lock"""
    return t[0] == "call" and t[1] in ("take", "clone", "as_ref", "replace") or t[0] == "proj" and isinstance(t[2], int) and \
        any(y[:2] == ("call", "lock") for y in terms(t)) and t[1][0] == "proj"


def printed(e, diag, it, st):
    """all diagnostics of the unit are among what is printed"""
    for a in e[2]:
        if not any(y[0] == "ret" and y[2] in diag for y in terms(a)) and a != ("vecnew",) and a[0] != "arr":
            continue
        for s, es in it.elems(a, st.copy(), 1):
            had = {x[1] for x in s.trace if x[0] == "iter" and x[1][0] == "ret" and x[1][2] in diag and x[1] in terms(a)} | \
                {y[1] for y in terms(a) if y[0] == "elem" and y[1][0] == "ret" and y[1][2] in diag}
            if any(x[0] == "noiter" and x[1] in had for x in s.trace):
                continue
            if had and not any(y[0] == "elem" and y[1] in had for y in es):
                return False
        return True
    return False


def captures(prog, it, e, runs):
    """a closure handed on that runs the unit"""
    for a in e[2]:
        for y in terms(a):
            if y[0] == "clo":
                return True
    return False


def run(prog, rep):
    k9 = K9(prog)
    n, q, fmt, lint = judge_report(prog, rep, k9)
    rep.floor("paths of the diagnostics", n, 2)
    rep.floor("kinds of message segments", judge_message(prog, rep, fmt), 5)
    rep.floor("paths of the tool", judge_tool(prog, rep, q), 60)
