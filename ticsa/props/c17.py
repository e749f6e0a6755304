"""C17: an import stands for its module, compiled once; cycles and unreadable modules are errors."""
from ..mir import Anchor
from ..front import OPTION, RESULT
from ..world import World, SynWorld, path
from . import c08, c28
from .c04 import terms
from .c09 import K as K9, UNIT

RULE = ("on every path of each resolver of imports: a module that is being compiled further out is answered with a cycle, one compiled "
        "before with the unit remembered under the same identity, an unreadable one with the error, and any other with the unit of "
        "its text, compiled with a resolver for that module and remembered under that identity, with no lock held meanwhile; the "
        "first imported file with errors is kept; the import item asks the built-in modules first and reports each failure once, at "
        "the path, as an error")
ASSUMPTIONS = ["canonical paths identify files", "two modules differ when their keys do"]
COMPLETE = "ticc::CompleteUnit"
IMPORT = "ticc::ImportError"


def variant(prog, adt, name):
    return [i for i, v in enumerate(prog.adts[adt]["variants"]) if v["n"] == name][0]


def result(prog, v):
    """("ok", x), ("err", name, payload)"""
    if v[0] == "adt" and v[1] == RESULT:
        if v[2] == 0:
            return ("ok", v[3][0])
        e = v[3][0]
        if e[0] == "adt" and e[1] == IMPORT:
            return ("err", prog.adts[IMPORT]["variants"][e[2]]["n"], e[3][0] if e[3] else None)
        return ("err", None, e)
    return (None,)


def opt(v):
    if v[0] == "adt" and v[1] == OPTION:
        return v[3][0] if v[2] == 1 else None
    return False


class R:
    def __init__(self, prog, rep, k9):
        self.prog, self.rep, self.k9 = prog, rep, k9
        own = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and not f.derived]
        self.new = {f.id for f in own if prog.adt_of(f.locals[0]) == UNIT and f.nargs >= 2 and any(
            prog.tstr(x) in ("&str", "&&str") for x in f.locals[1:f.nargs + 1])}
        self.complete = {f.id for f in own if prog.tstr(f.locals[0]) == COMPLETE and f.nargs == 1 and prog.adt_of(f.locals[1]) == UNIT}
        self.diag = {f.id for f in own if f.nargs == 1 and prog.adt_of(f.locals[1]) == UNIT and f.id.endswith("diagnostics")}
        if not self.new or not self.complete or not self.diag:
            raise Anchor("compilation of a unit")

    def resolvers(self):
        out = []
        for f in self.prog.fns.values():
            if f.trait_item == "ticc::ModuleResolver::lookup" and f.crate != "ticc" and not f.crate.startswith("ticc_tests"):
                if self.new & self.prog.reachable([f.id]):
                    out.append(f)
        return out

    def unlocked(self, tr, i):
        locks = sum(1 for e in tr[:i] if e[0] == "call" and str(e[1]).endswith("Mutex::<T>::lock"))
        return locks <= sum(1 for e in tr[:i] if e[0] == "unlock")

    def compiled(self, st, v, key):
        """the new unit: (text, options, resolver, position in the trace) for the value answered, or None"""
        if v[0] == "ret" and v[2] in self.complete and len(v) >= 4:
            u = v[3]
            did = u[0] == "after" and u[2] in self.diag
            while u[0] == "after":
                u = u[3]
            if u[0] == "ret" and u[2] in self.new:
                return u[3:], u, did
        return None


def fields(prog, adt):
    return {x["n"]: (i, x["t"]) for i, x in enumerate(prog.adts[adt]["variants"][0]["f"])}


def self_adt(prog, f):
    a = prog.adt_of(f.locals[1])
    s = prog.tstr(f.locals[1])
    for d in prog.adts:
        if s.endswith("Arc<%s>" % d) or s == "alloc::sync::Arc<%s, alloc::alloc::Global>" % d or a == d:
            if prog.adts[d]["kind"] == "struct" and not d.startswith(("alloc", "core", "std")):
                return d
    return None


def judge_tool(prog, rep, k, f, adt):
    """the resolver of the tool: knows its parents"""
    fs = fields(prog, adt)
    me = ("sym", "self")
    name = ("sym", "name")
    # what turns a name into a path and a path into an identity is opaque here
    keyed = [(n, i, t) for n, (i, t) in fs.items() if prog.tstr(t) == "std::path::PathBuf"]
    parent = [i for n, (i, t) in fs.items() if prog.tstr(t).startswith(OPTION) and adt in prog.tstr(t)][0]
    rootf = [i for n, (i, t) in fs.items() if i != parent and "Arc<" in prog.tstr(t)]
    own = {g.id for g in prog.fns.values() if g.crate == f.crate and g.kind == "fn" and "PathBuf" in prog.tstr(g.locals[0]) and
           prog.tstr(g.locals[0]).startswith("std::path::PathBuf")}
    paths = {g for g in own if prog.fns[g].nargs == 2}
    keys = {g for g in own if prog.fns[g].nargs == 1}
    it = World(prog, k.new | k.complete | k.diag | paths | keys)
    it.loop_bound = 2
    it.guards = True
    it.current = True
    where = f.loc()
    n = 0
    seen = set()
    for st, v in it.start(f, [me, name]):
        n += 1
        v = it.deep(st, v)
        r = result(prog, v)
        tr = st.trace
        ob = lambda c, key, text: rep.ob(c, f.id + ": " + key, text, where)
        P = [("ret", i, e[1]) + tuple(e[2]) for i, e in enumerate(tr) if e[0] == "do" and e[1] in paths]
        P = [p for p in P if p[3:] == (me, name)]
        # as numbered by the analysis
        ids = set()
        for x in list(st.facts) + [y for e in tr for y in e[1:] if isinstance(y, tuple)] + [v]:
            for y in terms_all(x):
                if y[0] == "ret" and y[2] in paths and y[3:] == (me, name):
                    ids.add(y)
        def is_path(t):
            return t in ids
        def is_key(t):
            return t[0] == "ret" and t[2] in keys and len(t) == 4 and is_path(t[3])
        # the ancestors compared and known
        chain, cur = [], me
        while True:
            chain.append(cur)
            nxt = ("proj", cur, parent)
            pd = st.facts.get(("call", "discr", nxt))
            if pd != 1:
                ended = pd == 0
                break
            cur = ("proj", ("proj", nxt, ("v", 1)), 0)
        eq = {}
        for x, val in st.facts.items():
            if x[0] == "bin" and x[1] in ("Eq", "Ne") and isinstance(val, int) and len(x) == 4:
                a, b = x[2], x[3]
                if is_key(a):
                    a, b = b, a
                if is_key(b) and strip(a)[0] == "proj":
                    eq[strip(a)] = (x[1] == "Eq") == bool(val)
        keyf = {a[2] for a in eq}
        cyc = any(eq.values())
        known = all(any(y[0] == "proj" and y[1] == strip(c) for y in eq) for c in chain)
        io = [(x, val) for x, val in st.facts.items() if x[:2] == ("call", "discr") and x[2][0] == "call" and x[2][1] == "read_to_string"]
        cache = [(x[2], val) for x, val in st.facts.items() if x[:2] == ("call", "discr") and x[2][0] == "call" and x[2][1] == "get"]
        good_cache = [c for c in cache if is_key(c[0][3])]
        if cyc:
            seen.add("cycle")
            ob(r[:2] == ("err", "ImportCycle"), "cycle", "is not reported as one")
            ob(len(keyf) == 1 and all(any(y == ("proj", strip(c), y[2]) for c in chain for y in [z]) for z in eq if eq[z]), "cycle",
               "is decided by something else")
            continue
        ob(r[:2] != ("err", "ImportCycle"), "cycle", "is reported for a module that is not being compiled")
        ob(known and ended, "cycle", "is not looked for in all modules being compiled")
        ob(bool(good_cache) and len(cache) == len(good_cache), "remembered modules", "are not asked for under the module's identity")
        if any(c[1] == 1 for c in good_cache):
            seen.add("cached")
            c = [c[0] for c in good_cache if c[1] == 1][0]
            ob(r[0] == "ok" and peel(r[1]) == c and not any(e[0] == "do" and e[1] in k.new for e in tr), "remembered modules", "are not what is answered")
            continue
        if io and io[0][1] == 1:
            seen.add("io")
            ob(r[:2] == ("err", "Io") and peel(r[2]) == io[0][0][2], "unreadable module", "is not answered with the error")
            ob(not any(e[0] in ("insert", "insert?") for e in tr), "unreadable module", "is remembered")
            continue
        seen.add("new")
        ob(len(io) == 1 and is_path(io[0][0][2][2]), "module", "is not read from the path the name stands for")
        text = ("proj", ("proj", io[0][0][2], ("v", 0)), 0) if io else None
        c = k.compiled(st, r[1], f.id) if r[0] == "ok" else None
        ob(c is not None, "module", "is not what is answered")
        if c is None:
            continue
        args, unit, did = c
        ob(text in args, "module", "is not compiled from its text")
        child = [a for a in args if a[0] == "adt" and a[1] == adt]
        ob(len(child) == 1, "resolver of the module", "is something else")
        for a in child:
            for nme, (i, t) in fs.items():
                x = a[3][i]
                if i == parent:
                    ob(opt(x) is not None and opt(x) is not False and strip(opt(x)) == me, "resolver of the module",
                       "does not know the modules being compiled")
                elif i in rootf:
                    ob(strip(x) == ("proj", me, i), "resolver of the module", "does not share what is remembered")
                elif i in keyf:
                    ob(is_key(x), "resolver of the module", "has another identity")
                else:
                    ob(is_path(strip(x)), "resolver of the module", "has another path")
        ins = [e for e in tr if e[0] == "insert"]
        ob(len(ins) == 1 and is_key(ins[0][2]) and ins[0][3] == r[1] and any(ins[0][1] == g[0][2] for g in good_cache), "module",
           "is not remembered under its identity")
        for i, e in enumerate(tr):
            if e[0] == "do" and e[1] in k.new | k.complete | k.diag:
                ob(k.unlocked(tr, i), "module", "is compiled with a lock held")
        # errors of the module
        err = None
        sev = variant(prog, "ticc::Severity", "Error")
        si = [i for i, x in enumerate(prog.adts[c08.DIAG]["variants"][0]["f"]) if prog.adt_of(x["t"]) == "ticc::Severity"][0]
        ds = {y for e in tr if e[0] == "do" and e[1] in k.diag for y in [e[1]]}
        for x, val in st.facts.items():
            if x[0] == "bin" and x[1] in ("Eq", "Ne") and isinstance(val, int):
                a, b = (x[2], x[3]) if x[3][0] in ("c", "adt") else (x[3], x[2])
                if a[:2] == ("call", "discr"):
                    a = a[2]
                if b[0] in ("c", "adt") and c08.is_sev(a, k.diag, si):
                    e = (x[1] == "Eq") == bool(val)
                    err = e if (b[1] if b[0] == "c" else b[2]) == sev else not e
            elif x[:2] == ("call", "discr") and isinstance(val, int) and c08.is_sev(x[2], k.diag, si):
                err = val == sev
        keeps = [e for e in tr if e[0] == "call" and short(e[1]) in ("get_or_insert", "get_or_insert_with", "insert", "replace") and
                 "option::Option" in str(e[1])]
        # (place, value) of what is assigned behind the lock
        wrote = []
        for kk, vv in st.env.items():
            vv = it.deep(st, vv)
            if vv[0] == "upd" and locked(vv[1]):
                x = vv[1]
                for e in vv[2]:
                    x = ("proj", x, e)
                wrote.append((x, vv[3]))
            elif kk[0] == "mem" and locked(kk[1]):
                wrote.append((kk[1], vv))
        for x, y in wrote:
            ob(st.facts.get(("call", "discr", x)) == 0 or st.facts.get(("call", "is_none", x)) == 1, "errors of the module", "replace those of another")
        held = [x for x, val in st.facts.items() if x[:2] == ("call", "discr") and val == 1 and locked(x[2]) and x[2][0] == "proj"]
        keeps += wrote
        if err:
            seen.add("errors")
            good = [e[2][1] for e in keeps if e[0] == "call" and short(e[1]).startswith("get_or_insert")] + [y for x, y in wrote]
            tup = good[-1] if good else None
            if held and not good:
                continue
            ob(bool(good), "errors of the module", "are not kept, or replace those of another")
            if tup is not None:
                ts = terms(tup)
                ob(any(is_path(y) for y in ts) and text in ts and any(y[0] == "elem" and y[1][0] == "ret" and y[1][2] in k.diag or
                   y[0] == "ret" and y[2] in k.diag for y in ts), "errors of the module", "are kept for another file, or not all of them")
        elif err is False and any(e[0] == "full" for e in tr) or err is None:
            if err is None:
                none = any(e[0] == "noiter" and c08.of_unit(e[1], k.diag) for e in tr)
                ob(none, "errors of the module", "are not looked at")
            ob(not keeps, "errors of the module", "are kept although there are none")
        else:
            ob(False, "errors of the module", "are only looked for in some of the diagnostics")
    for s, what in (("cycle", "cycles"), ("cached", "remembered modules"), ("io", "unreadable modules"), ("new", "new modules"),
                    ("errors", "modules with errors")):
        rep.ob(s in seen, f.id + ": " + what, "are never found", where)
    judge_paths(prog, rep, f, adt, fs, paths, keys)
    return n


def judge_paths(prog, rep, f, adt, fs, paths, keys):
    """name -> path, path -> identity"""
    n = 0
    for g in paths:
        g = prog.fns[g]
        if prog.adt_of(g.locals[1]) != adt:
            continue
        it = World(prog, ())
        it.loop_bound = 1
        me, name = ("sym", "self"), ("sym", "name")
        for st, v in it.start(g, [me, name]):
            n += 1
            ops = [(short(e[1]), e[2]) for e in st.trace if e[0] == "call" and "path::PathBuf" in str(e[1]) or
                   e[0] == "call" and "path::Path::" in str(e[1])]
            names = [o for o, a in ops]
            it_ = any(e[0] == "iter" for e in st.trace)
            seps = {y for e in st.trace if e[0] in ("iter", "noiter") for x in [e[1]] if x[:2] == ("call", "split") and x[2] == name for y in [x[3]]}
            ok = seps == {("c", 47)} or seps == {("s", "/")}
            rep.ob(ok, g.id, "does not take the name apart at slashes", g.loc())
            up = "pop" in names or "parent" in names or "set_file_name" in names
            rep.ob(up, g.id, "does not start from the folder of the importing file", g.loc())
            if it_:
                push = [a for o, a in ops if o in ("push", "join")]
                rep.ob(any(y[0] == "elem" and y[1][:2] == ("call", "split") for a in push for x in a for y in terms(x)), g.id,
                       "does not follow each part of the name", g.loc())
                rep.ob(names.index("pop") < names.index("push") if "pop" in names and "push" in names else True, g.id,
                       "goes up after it went down", g.loc())
    for g in keys:
        g = prog.fns[g]
        it = World(prog, ())
        p = ("sym", "path")
        for st, v in it.start(g, [p]):
            n += 1
            v = it.deep(st, v)
            can = [x for x in st.facts if x[:2] == ("call", "discr") and x[2][:2] == ("call", "canonicalize")]
            ok = len(can) == 1 and can[0][2][2] == p
            rep.ob(ok, g.id, "does not resolve the path", g.loc())
            if ok:
                if st.facts[can[0]] == 0:
                    rep.ob(peel(v) == can[0][2], g.id, "is not the resolved path", g.loc())
                else:
                    rep.ob(strip(v) == p, g.id, "is not the path itself when it cannot be resolved", g.loc())
    rep.floor("paths of names and identities", n, 4)


def short(s):
    return str(s).split("::")[-1]


def locked(t):
    while t[0] == "proj":
        t = t[1]
    return t[:2] == ("call", "lock")


def strip(t):
    while t[0] == "call" and t[1] in ("clone", "to_owned", "as_ref", "as_path", "deref", "borrow", "to_path_buf", "into") and len(t) == 3:
        t = t[2]
    return t


def peel(t):
    """the optional or result a value was taken from"""
    while t and t[0] == "proj" or t[0] == "call" and t[1] in ("clone", "cloned") and len(t) == 3:
        t = t[1] if t[0] == "proj" else t[2]
    return t


def terms_all(x):
    if not isinstance(x, tuple) or not x:
        return []
    if isinstance(x[0], str):
        return terms(x)
    return [y for z in x for y in terms_all(z)]


def run(prog, rep):
    k9 = K9(prog)
    k = R(prog, rep, k9)
    rs = k.resolvers()
    n = {"tool": 0, "server": 0}
    for f in rs:
        adt = self_adt(prog, f)
        if adt is None:
            raise Anchor("resolver")
        fs = fields(prog, adt)
        if any(prog.tstr(t).startswith(OPTION) and adt in prog.tstr(t) for i, t in fs.values()):
            n["tool"] += judge_tool(prog, rep, k, f, adt)
        else:
            n["server"] += judge_server(prog, rep, k, f, adt)
    n["item"] = judge_item(prog, rep)
    n["exports"] = judge_exports(prog, rep, k)
    rep.floor("paths of an import item", n["item"], 6)
    rep.floor("paths of exports", n["exports"], 8)
    rep.floor("paths of the tool's resolver", n["tool"], 9)
    rep.floor("paths of the server's resolver", n["server"], 9)


def judge_server(prog, rep, k, f, adt):
    """the resolver of the language server: one table of the modules of a compilation"""
    fs = fields(prog, adt)
    me, name = ("sym", "self"), ("sym", "name")
    table = [i for n, (i, t) in fs.items() if COMPLETE_TABLE(prog, t)]
    if len(table) != 1:
        raise Anchor("table of modules")
    dep = table_entry(prog, [t for n, (i, t) in fs.items() if i == table[0]][0])
    df = fields(prog, dep)
    ui = [i for n, (i, t) in df.items() if prog.tstr(t).startswith(OPTION)][0]
    vi = [i for n, (i, t) in df.items() if prog.tstr(t) == "u64"][0]
    keyt = {prog.tstr(t) for n, (i, t) in fs.items() if prog.adt_of(t) and prog.adt_of(t).startswith(f.crate.split(".")[0]) and
            "Key" in prog.adt_of(t)}
    keyi = [i for n, (i, t) in fs.items() if prog.tstr(t) in keyt][0]
    filesi = [i for n, (i, t) in fs.items() if i not in (table[0], keyi)]
    name_key = {g.id for g in prog.fns.values() if g.crate == f.crate and g.kind == "fn" and g.nargs == 2 and
                prog.tstr(g.locals[0]).startswith(OPTION) and any(x in prog.tstr(g.locals[0]) for x in keyt) and adt in prog.tstr(g.locals[1])}
    get = {g.id for g in prog.fns.values() if g.crate == f.crate and g.kind == "fn" and g.nargs == 2 and
           prog.adt_of(g.locals[0]) and prog.tstr(g.locals[0]).endswith("FileContent")}
    content = [prog.adt_of(prog.fns[g].locals[0]) for g in get]
    if len(get) != 1 or len(name_key) != 1:
        raise Anchor("files of the server")
    cf = fields(prog, content[0])
    ci = [i for n, (i, t) in cf.items() if prog.tstr(t).startswith(RESULT)][0]
    cvi = [i for n, (i, t) in cf.items() if prog.tstr(t) == "u64"][0]
    it = World(prog, k.new | k.complete | k.diag | name_key | get)
    it.guards = True
    it.current = True
    where = f.loc()
    n = 0
    seen = set()
    for st, v in it.start(f, [me, name]):
        n += 1
        v = it.deep(st, v)
        r = result(prog, v)
        tr = st.trace
        ob = lambda c, key, text: rep.ob(c, f.id + ": " + key, text, where)
        every = {y for x in list(st.facts) + [y for e in tr for y in e[1:] if isinstance(y, tuple)] + [v] for y in terms_all(x)}
        nk = [y for y in every if y[0] == "ret" and y[2] in name_key and y[3:] == (me, name)]
        if not nk:
            ob(False, "module", "is not identified by the name and the importing file")
            continue
        nk = nk[0]
        if st.facts.get(("call", "discr", nk)) == 0:
            seen.add("nokey")
            ob(r[:2] == ("err", "DoesNotExist"), "name without a module", "is not answered with an error")
            continue
        K = ("proj", ("proj", nk, ("v", 1)), 0)
        T = [y for y in every if y[0] == "entry" and strip(y[2]) == K or y[0] == "call" and y[1] in ("get", "contains") and len(y) == 4 and strip(y[3]) == K]
        T = [y for y in T if any(z == ("proj", me, table[0]) for z in terms(y))]
        if not T:
            ob(False, "modules being compiled", "are not asked for under the module's identity")
            continue
        present = None
        compiled = [i for i, e in enumerate(tr) if e[0] == "do" and e[1] in k.new]
        late = [e for e in tr[compiled[0] if compiled else len(tr):] if e[0] == "ask"]
        early = [e for e in tr[:compiled[0] if compiled else len(tr)] if e[0] == "ask"]
        for y in sorted(T, key=lambda y: (y[0] != "entry", repr(y))):
            if y[0] == "call" and any(e[1:3] == y[2:4] for e in late) and not any(e[1:3] == y[2:4] for e in early):
                continue        # after the module was compiled
            d = st.facts.get(("call", "discr", y), st.facts.get(y))
            if isinstance(d, int):
                p = (d == 0) if y[0] == "entry" else bool(d)
                present = p if present is None else present
        gets = [y for y in every if y[0] == "ret" and y[2] in get and strip(y[4]) == K and strip(y[3]) == ("proj", me, filesi[0])]
        if present is None or len(gets) != 1:
            ob(False, "module", "is not looked up once")
            continue
        src = ("proj", gets[0], ci)
        ok = st.facts.get(("call", "discr", src))
        done = unit = None
        for x, val in st.facts.items():
            if x[:2] == ("call", "discr") and isinstance(val, int) and x[2][0] == "proj" and x[2][2] == ui and any(y in terms(x[2]) for y in T):
                done, unit = val == 1, x[2]
        if present and done:
            seen.add("cached")
            ob(r[0] == "ok" and peel_to(r[1], unit) and not compiled, "remembered modules", "are not what is answered")
            continue
        ob(present is False or done is False, "remembered modules", "are not looked at")
        if ok == 1:
            # unreadable
            kd = ("proj", ("proj", src, ("v", 1)), 0)
            kind = st.facts.get(("call", "discr", kd), st.facts.get(kd))
            eq = None
            if isinstance(kind, int):
                eq = kind == 0
            elif kind is not None:
                eq = False if 0 in kind else None
            for x, val in st.facts.items():
                if x[0] == "bin" and x[1] in ("Eq", "Ne") and isinstance(val, int) and (kd in x[2:] or ("call", "discr", kd) in x[2:]):
                    eq = (x[1] == "Eq") == bool(val)
            if eq is None:
                ob(False, "unreadable module", "is not told from a missing one")
            elif eq:
                seen.add("missing")
                ob(r[:2] == ("err", "DoesNotExist"), "missing module", "is not answered with an error")
            else:
                seen.add("io")
                ob(r[:2] == ("err", "Io") and peel(r[2]) == peel(kd), "unreadable module", "is not answered with the error")
            if not present:
                ob(recorded(prog, tr, st, T, K, dep, ui, vi, gets[0], cvi, len(tr)), "unreadable module", "is not among the dependencies")
            continue
        ob(ok == 0, "module", "is used without knowing if it can be read")
        if present:
            seen.add("cycle")
            ob(r[:2] == ("err", "ImportCycle") and not compiled, "cycle", "is not reported as one")
            continue
        seen.add("new")
        ob(r[:2] != ("err", "ImportCycle"), "cycle", "is reported for a module that is not being compiled")
        c = k.compiled(st, r[1], f.id) if r[0] == "ok" else None
        ob(c is not None, "module", "is not what is answered")
        if c is None:
            continue
        args, u, did = c
        text = ("proj", ("proj", src, ("v", 0)), 0)
        ob(text in [strip(a) for a in args], "module", "is not compiled from its text")
        ob(recorded(prog, tr, st, T, K, dep, ui, vi, gets[0], cvi, compiled[0]), "module", "is compiled without being marked, or with another version")
        child = [a for a in args if a[0] == "adt" and a[1] == adt]
        ob(len(child) == 1, "resolver of the module", "is something else")
        for a in child:
            ob(strip(a[3][keyi]) == K, "resolver of the module", "has another identity")
            ob(strip(a[3][table[0]]) == ("proj", me, table[0]), "resolver of the module", "does not share the modules")
            ob(all(strip(a[3][i]) == ("proj", me, i) for i in filesi), "resolver of the module", "has other files")
        ob(remembered(st, tr, it, T, K, ui, r[1]), "module", "is not remembered under its identity")
        for i, e in enumerate(tr):
            if e[0] == "do" and e[1] in k.new | k.complete | k.diag:
                ob(k.unlocked(tr, i), "module", "is compiled with a lock held")
    for s, what in (("nokey", "names without a module"), ("cached", "remembered modules"), ("missing", "missing modules"),
                    ("io", "unreadable modules"), ("cycle", "cycles"), ("new", "new modules")):
        rep.ob(s in seen, f.id + ": " + what, "are never found", where)
    g = prog.fns[list(name_key)[0]]
    it = World(prog, ())
    for st, v in it.start(g, [me, name]):
        n += 1
        v = it.deep(st, v)
        js = [x for x in st.facts if x[:2] == ("call", "discr") and x[2][:2] == ("call", "join")]
        ok = len(js) == 1 and js[0][2][2] == ("proj", ("proj", me, keyi), 0) and js[0][2][3] == name
        rep.ob(ok, g.id, "does not join the name to the importing file's address", g.loc())
        if ok:
            x = opt(v)
            rep.ob(x is None if st.facts[js[0]] == 1 else bool(x) and any(y == js[0][2] for y in terms(x)), g.id, "is another address", g.loc())
    return n


def COMPLETE_TABLE(prog, t):
    return table_entry(prog, t) is not None


def table_entry(prog, t):
    """the entries of a table of modules"""
    s = prog.tstr(t)
    if "HashMap<" not in s and "BTreeMap<" not in s:
        return None
    for d, a in prog.adts.items():
        if a["kind"] == "struct" and d in s and any(COMPLETE in prog.tstr(x["t"]) for x in a["variants"][0]["f"]) and d != COMPLETE:
            return d
    return None


def peel_to(t, unit):
    while True:
        if t == unit:
            return True
        if t[0] == "proj":
            t = t[1]
        elif t[0] == "call" and t[1] in ("clone", "cloned") and len(t) == 3:
            t = t[2]
        else:
            return False


def recorded(prog, tr, st, T, K, dep, ui, vi, got, cvi, before):
    """an entry without a unit, with the version of the text, before the module is compiled"""
    for i, e in enumerate(tr):
        if i >= before:
            break
        vals = None
        if e[0] == "call" and short(e[1]) in ("insert", "insert_entry") and "Entry" in str(e[1]) and any(y in terms(e[2][0]) for y in T):
            vals = e[2][1:]
        elif e[0] in ("insert", "insert?") and len(e) == 4 and strip(e[2]) == K and any(e[1] in terms(y) for y in T):
            vals = e[3:]
        for x in vals or ():
            if x[0] == "adt" and x[1] == dep and opt(x[3][ui]) is None and x[3][vi] == ("proj", got, cvi):
                return True
    return False


def remembered(st, tr, it, T, K, ui, unit):
    for e in tr:
        if e[0] in ("insert",) and len(e) == 4 and strip(e[2]) == K and e[3][0] == "adt" and opt(e[3][3][ui]) == unit:
            return True
    for k, v in st.env.items():
        if k[0] == "mem" and any(y[0] in ("call", "entry") and len(y) == 4 and strip(y[3]) == K or y[0] in ("entry", "at") and strip(y[2]) == K
                                 for y in terms(k[1])):
            if unit in terms(it.deep(st, v)):
                return True
    return False


DEF, DEFKIND = "ticc::compiler::ir::Def", "ticc::compiler::ir::DefKind"
VIS = "ticc::compiler::ir::Visibility"


def field(prog, adt, v, n):
    return v[3][[i for i, f in enumerate(prog.adts[adt]["variants"][v[2]]["f"]) if f["n"] == n][0]]


def judge_item(prog, rep):
    """what the import item does with the answer"""
    own = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and not f.derived]
    imp = [f for f in own if any(prog.tstr(x).split("<")[0].endswith("node::ImportItem") for x in f.locals[1:f.nargs + 1])]
    cg = prog.cg()
    imp = [f for f in imp if any("ModuleResolver" in prog.tstr(x) for x in f.locals[1:f.nargs + 1])]
    imp = [f for f in imp if not any(f.id in cg.get(g.id, ()) for g in imp if g is not f)]
    built = [f for f in own if f.nargs == 1 and prog.tstr(f.locals[1]) == "&str" and prog.tstr(f.locals[0]) == OPTION + "<" + COMPLETE + ">"]
    built = [f for f in built if any(f.id in cg.get(x, ()) for x in prog.reachable([g.id for g in imp]))]
    exp = [f for f in own if f.nargs == 3 and prog.tstr(f.locals[0]).startswith(RESULT) and DEF in prog.tstr(f.locals[0])]
    if len(imp) != 1 or len(built) != 1 or len(exp) != 1:
        raise Anchor("import item: %d, %d, %d" % (len(imp), len(built), len(exp)))
    f, built, exp = imp[0], built[0], exp[0]
    it = SynWorld(prog, {built.id, exp.id})
    it.loop_bound = 1
    args = [("sym", "a%d" % i) for i in range(1, f.nargs + 1)]
    res = [a for a, x in zip(args, f.locals[1:]) if "ModuleResolver" in prog.tstr(x)][0]
    item = [a for a, x in zip(args, f.locals[1:]) if "ImportItem" in prog.tstr(x)][0]
    ep = ("acc", "path", item)
    there = ("proj", ("proj", ep, ("v", 1)), 0)
    where = f.loc()
    n = 0
    seen, words = set(), {}
    for st, v in it.start(f, args):
        n += 1
        tr = st.trace
        ob = lambda c, key, text: rep.ob(c, f.id + ": " + key, text, where)
        defs = [x for e in tr if e[0] == "call" for x in e[2] if x[0] == "adt" and x[1] == DEF]
        diags = [x for e in tr if e[0] == "call" and "record" in short(e[1]) for x in e[2] if x[0] == "adt" and x[1].endswith("RawDiagnostic")]
        asked = [e for e in tr if e[0] == "call" and str(e[1]).endswith("ModuleResolver::lookup")]
        b = [(i, e) for i, e in enumerate(tr) if e[0] == "do" and e[1] == built.id]
        if st.facts.get(("call", "discr", ep)) == 0:
            seen.add("none")
            ob(not asked and not b and not defs, "item without a path", "stands for a module")
            continue
        ob(len(b) == 1, "built-in modules", "are not asked for")
        if len(b) != 1:
            continue
        text = b[0][1][2][0]
        ob(is_text(text, ("acc", "text", there)), "name of the module", "is not what stands between the quotes")
        hit = st.facts.get(("call", "discr", ("ret", b[0][0], built.id, text)))
        if hit == 1:
            seen.add("built in")
            ob(not asked, "built-in module", "is asked from the resolver")
            unit = ("proj", ("proj", ("ret", b[0][0], built.id, text), ("v", 1)), 0)
        else:
            ob(hit == 0 and len(asked) == 1, "module", "is not asked for once")
            if len(asked) != 1:
                continue
            ob(strip(asked[0][2][0]) == res and asked[0][2][1] == text, "module", "is asked for under another name")
            ans = ("call", "lookup") + tuple(asked[0][2])
            d = st.facts.get(("call", "discr", ans))
            if d == 1:
                er = ("proj", ("proj", ans, ("v", 1)), 0)
                kind = st.facts.get(("call", "discr", er), st.facts.get(er))
                ks = [kind] if isinstance(kind, int) else sorted(set(range(len(prog.adts[IMPORT]["variants"]))) - set(kind or ()))
                ob(not defs, "failure", "stands for a module")
                ob(len(diags) == 1, "failure", "is not reported once")
                for x in diags:
                    sev = field(prog, x[1], x, "severity")
                    ob(sev[0] == "adt" and prog.adts[sev[1]]["variants"][sev[2]]["n"] == "Error", "failure", "is not an error")
                    ob(field(prog, x[1], x, "span") == ("acc", "span", there), "failure", "is reported elsewhere")
                    s = tuple(sorted({y[1] for y in terms(x) if y[0] == "s"}))
                    for i in ks:
                        words.setdefault(s, set()).add(prog.adts[IMPORT]["variants"][i]["n"])
                        seen.add(prog.adts[IMPORT]["variants"][i]["n"])
                        if prog.adts[IMPORT]["variants"][i]["f"]:
                            ob(any(y == ("proj", ("proj", er, ("v", i)), 0) for y in terms(x)), "failure", "does not say why")
                continue
            ob(d == 0, "answer", "is not looked at")
            seen.add("found")
            unit = ("proj", ("proj", ans, ("v", 0)), 0)
        mods = []
        for x in defs:
            kd = field(prog, DEF, x, "kind")
            if kd[0] == "adt" and prog.adts[DEFKIND]["variants"][kd[2]]["n"] == "Module":
                mods.append(kd[3][0])
        ob(len(mods) == 1 and strip(mods[0]) == unit, "module", "is not defined once")
        ob(not any(field(prog, x[1], x, "span") == ("acc", "span", there) for x in diags), "module", "is reported although it was found")
    for s, vs in words.items():
        rep.ob(len(vs) == 1, f.id + ": failures", "%s read the same" % " and ".join(sorted(vs)), where)
    for s in ["none", "built in", "found"] + [v["n"] for v in prog.adts[IMPORT]["variants"]]:
        rep.ob(s in seen, f.id + ": " + s, "is never found", where)
    return n


def is_text(t, whole):
    if t[0] == "call" and t[1] == "index" and len(t) == 4 and t[2] == whole and t[3][0] == "adt" and "Range" in t[3][1]:
        lo, hi = (t[3][3] + (None,))[:2]
        return lo == ("c", 1) and hi == ("bin", "Sub", ("call", "len", whole), ("c", 1))
    while t[0] in ("call", "proj"):
        if t[0] == "call" and t[1] not in ("trim_matches", "strip_prefix", "strip_suffix", "trim_start_matches", "trim_end_matches", "unwrap",
                                           "expect", "unwrap_or"):
            return False
        if t[0] == "call" and t[1].split("_")[0] in ("trim", "strip") and t[3] not in (("c", 34), ("s", '"')):
            return False
        t = t[2] if t[0] == "call" else t[1]
        if t == whole:
            return True
    return False


def judge_exports(prog, rep, k):
    """what a module gives to those that import it"""
    n = 0
    cg = prog.cg()
    ns = "ticc::NamespacedName"
    own = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and not f.derived]
    comp = [prog.fns[x] for x in sorted(k.complete)]
    kinds = prog.adts[DEFKIND]["variants"]
    want = {"Value": {"Value"}, "Ctor": {"Pattern", "Value"}, "Type": {"Type"}, "Module": {"Module"}}
    for f in comp:
        drive = {g for g in cg.get(f.id, ()) if g in prog.fns and prog.tstr(prog.fns[g].locals[0]) == "()" and prog.fns[g].nargs and
                 prog.tstr(prog.fns[g].locals[1]).startswith("&mut") and prog.adt_of(prog.fns[g].locals[1]) == UNIT}
        it = World(prog, drive)
        it.loop_bound = 1
        me = ("sym", "unit")
        seen = set()
        for st, v in it.start(f, [me]):
            n += 1
            v = it.deep(st, v)
            ob = lambda c, key, text: rep.ob(c, f.id + ": " + key, text, f.loc())
            props = [x for x in terms(v) if x[0] == "adt" and x[1].endswith("CompleteUnitProps")]
            ob(len(props) == 1, "module", "is something else")
            if len(props) != 1:
                continue
            unit = field(prog, props[0][1], props[0], "unit")
            ex = field(prog, props[0][1], props[0], "exports")
            ob(unit[0] == "after" and unit[2] in drive and unit[3] == me, "module", "is not compiled to its end")
            roots = {unit: ("unit", f.locals[1])}
            defs = {}
            for e in st.trace:
                if e[0] in ("insert", "insert?") and e[1] == ex and len(e) == 4:
                    defs.setdefault(e[3], []).append(e[2])
            for x in list(st.facts):
                for y in terms(x):
                    if y[0] == "elem" and path(prog, y, roots) == ("unit", "items", "*", "defs", "*"):
                        defs.setdefault(y, [])
            for d, names in defs.items():
                if path(prog, strip(d), roots) != ("unit", "items", "*", "defs", "*"):
                    ob(False, "exports", "hold something other than the module's definitions")
                    continue
                d0 = strip(d)
                fi = {x["n"]: i for i, x in enumerate(prog.adts[DEF]["variants"][0]["f"])}
                e = exported(prog, st, ("proj", d0, fi["vis"]))
                if not e:
                    ob(not names, "exports", "hold definitions that are not exported")
                    continue
                kd = ("proj", d0, fi["kind"])
                kv = st.facts.get(("call", "discr", kd), st.facts.get(kd))
                if not isinstance(kv, int):
                    ob(False, "exports", "do not tell kinds of definitions apart")
                    continue
                kn = kinds[kv]["n"]
                seen.add(kn)
                got = set()
                for x in names:
                    if x[0] == "adt" and x[1] == ns:
                        sp = field(prog, ns, x, "namespace")
                        got.add(prog.adts[sp[1]]["variants"][sp[2]]["n"] if sp[0] == "adt" else None)
                        ts = terms(field(prog, ns, x, "name"))
                        ob(("proj", d0, fi["span"]) in ts and any(path(prog, y, roots) == ("unit", "src") for y in ts), "exports",
                           "are known by another name")
                ob(got == want.get(kn), "exports", "give a %s as %s" % (kn, ", ".join(sorted(map(str, got)))))
            its = [e[1] for e in st.trace if e[0] in ("iter", "full", "noiter")]
            for p in (("unit", "items"),):
                fulls = sum(1 for e in st.trace if e[0] in ("full", "noiter") and e[1] is not None and path(prog, e[1], roots) == p)
                ob(fulls >= 1, "exports", "do not hold all items' definitions")
        for x in want:
            rep.ob(x in seen, f.id + ": exported " + x, "is never found", f.loc())
    for f in own:
        if not (f.nargs == 3 and prog.tstr(f.locals[0]).startswith(RESULT) and DEF in prog.tstr(f.locals[0])):
            continue
        it = World(prog, ())
        it.loop_bound = 1
        a = [("sym", "a%d" % i) for i in range(1, 4)]
        ei = fields(prog, prog.adt_of(f.locals[1]))["exports"][0]
        name = ("sym", "name")
        for st, v in it.start(f, a):
            n += 1
            v = it.deep(st, v)
            fi = {x["n"]: i for i, x in enumerate(prog.adts[ns]["variants"][0]["f"])}

            def full(x):
                q = [None, None]
                q[fi["name"]], q[fi["namespace"]] = a[2], a[1]
                return x[:2] == ("adt", ns) and list(x[3]) == q
            got = {}
            for x, val in st.facts.items():
                y = x[2] if x[:2] == ("call", "discr") else x
                if y[0] == "call" and y[1] in ("get", "contains") and y[2] == ("proj", a[0], ei) and isinstance(val, int):
                    got[y] = val
            main = [y for y in got if full(y[3])]
            rep.ob(len(main) == 1, f.id, "does not look for the name", f.loc())
            if len(main) != 1:
                continue
            if got[main[0]] == 1:
                rep.ob(v[0] == "adt" and v[1] == RESULT and v[2] == 0 and peel(v[3][0]) == main[0], f.id, "does not answer the export it found", f.loc())
            else:
                rep.ob(v[0] == "adt" and v[1] == RESULT and v[2] == 1, f.id, "answers another export", f.loc())
    return n


def exported(prog, st, vis):
    want = variant(prog, VIS, "Export")
    for x, val in st.facts.items():
        if x == vis or x == ("call", "discr", vis):
            return val == want if isinstance(val, int) else None if want not in val else False
        if x[0] == "bin" and x[1] in ("Eq", "Ne") and isinstance(val, int) and any(y in (vis, ("call", "discr", vis)) for y in x[2:]):
            o = [y for y in x[2:] if y not in (vis, ("call", "discr", vis))]
            if o and o[0] in (("c", want),) or o and o[0][0] == "adt" and o[0][2] == want:
                return (x[1] == "Eq") == bool(val)
    return None
