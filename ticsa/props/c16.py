"""C16: what the language server has compiled is the current text of the open files, and the editor is told."""
from ..mir import Anchor
from ..front import OPTION, RESULT, items
from ..world import World
from . import c08
from .c09 import K as K9, UNIT
from .c17 import R, fields, strip, peel, opt, terms_all, short, locked

RULE = ("on every path of the server's table of files, of the refreshing of a compilation and of the handlers of the open, change and "
        "close notifications: a new text gets a new version, a compilation is redone exactly when its own text or one it depends on "
        "has a later version than the one it was made from, and every compilation that was redone is published under its own address")
ASSUMPTIONS = ["the client sends whole documents when it is told to", "versions do not reach 2^64"]
CRATE = "ticc_lsp"


def own(f):
    return f.crate.split(".")[0] == CRATE and "::tests" not in f.id


class L:
    """the parts of the server"""

    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.k = R(prog, rep, K9(prog))
        self.fns = [f for f in prog.fns.values() if own(f)]
        structs = {d: fields(prog, d) for d, a in prog.adts.items() if d.startswith(CRATE + "::") and a["kind"] == "struct"}
        one = lambda what, l: l[0] if len(l) == 1 else self.no(what, l)
        s = lambda t: prog.tstr(t)
        self.content = one("content of a file", [d for d, fs in structs.items() if any(s(t).startswith(RESULT) for i, t in fs.values()) and
                                                 any(s(t) == "u64" for i, t in fs.values())])
        self.files = one("table of files", [d for d, fs in structs.items() if any("Mutex<" in s(t) and self.content in s(t) for i, t in fs.values())])
        self.comp = one("compilation", [d for d, fs in structs.items() if any(prog.adt_of(t) == UNIT for i, t in fs.values())])
        c = structs[self.comp]
        self.keyt = one("key of a file", [prog.adt_of(t) for i, t in c.values() if str(prog.adt_of(t)).startswith(CRATE) and prog.adt_of(t) != self.files and
                                          prog.adt_of(t) in structs and len(structs[prog.adt_of(t)]) == 1])
        f = lambda d, p: one("field of " + d, [i for i, t in structs[d].values() if p(t)])
        self.c_text = f(self.content, lambda t: s(t).startswith(RESULT))
        self.c_ver = f(self.content, lambda t: s(t) == "u64")
        self.f_table = f(self.files, lambda t: "Mutex<" in s(t))
        self.f_read = f(self.files, lambda t: "Mutex<" not in s(t))
        self.k_key = f(self.comp, lambda t: prog.adt_of(t) == self.keyt)
        self.k_files = f(self.comp, lambda t: prog.adt_of(t) == self.files)
        self.k_ver = f(self.comp, lambda t: s(t) == "u64")
        self.k_unit = f(self.comp, lambda t: prog.adt_of(t) == UNIT)
        self.k_deps = f(self.comp, lambda t: "Mutex<" in s(t))
        self.dep = one("dependency", [d for d in structs if d in s([t for i, t in c.values() if i == self.k_deps][0]) and d not in (self.keyt, self.comp)])
        self.d_ver = f(self.dep, lambda t: s(t) == "u64")
        fn = lambda what, p: one(what, [g for g in self.fns if g.kind == "fn" and not g.derived and p(g)])
        args = lambda g: [s(t) for t in g.locals[1:g.nargs + 1]]
        self.set = fn("storing of a text", lambda g: s(g.locals[0]) == "()" and g.nargs == 3 and prog.adt_of(g.locals[1]) == self.files)
        self.get = fn("reading of a text", lambda g: prog.adt_of(g.locals[0]) == self.content and g.nargs == 2)
        self.refresh = fn("refreshing", lambda g: s(g.locals[0]) == "bool" and g.nargs == 1 and args(g)[0].startswith("&mut") and
                          prog.adt_of(g.locals[1]) == self.comp)
        self.diags = fn("diagnostics of the editor", lambda g: s(g.locals[0]).startswith("alloc::vec::Vec<lsp_types::") and "Diagnostic>" in s(g.locals[0]))
        self.resolver = one("resolver", [d for d, fs in structs.items() if d != self.comp and any(prog.adt_of(t) == self.keyt for i, t in fs.values()) and
                                         any(prog.adt_of(t) == self.files for i, t in fs.values())])
        self.structs = structs

    def no(self, what, l):
        raise Anchor("%s: %s" % (what, l))

    class World(World):
        def unknown(self, callee, args, st, t, fn):
            if not args and "::Arc<" in str(callee):     # each one is another
                st.trace.append(("call", callee, (), fn.id if fn else None))
                return iter([(st, ("call", short(callee), ("n", len(st.trace))))])
            return super().unknown(callee, args, st, t, fn)

        def model(self, name, callee, args, st, t, fn, *more):
            d = str(callee)
            if args and ("sort" in name or name in ("into_iter", "iter", "drain", "reverse")):
                xs = items(self.deref(st, args[0]))
                if xs is not None and ("sort" in name or name == "reverse"):
                    return [(st, ("tup", ()))]
                if xs is not None:
                    return [(st, ("arr", tuple(xs)))]
            return super().model(name, callee, args, st, t, fn, *more)

    def world(self, closed=()):
        it = self.World(self.prog, self.k.new | self.k.complete | self.k.diag | set(closed))
        it.guards = it.current = it.entries = True
        it.loop_bound = 1
        return it


def ver(t):
    """a constant at least 1"""
    return t[0] == "c" and t[1] >= 1


def over(v, i):
    """field i of a value that may have been assigned to"""
    while v[0] == "upd":
        if v[2] and v[2][0] == i:
            return v[3] if len(v[2]) == 1 else None
        v = v[1]
    if v[0] == "adt":
        return v[3][i]
    return ("proj", v, i)


def judge_files(prog, rep, l):
    me, key, text = ("sym", "files"), ("sym", "key"), ("sym", "text")
    table = ("proj", me, l.f_table)
    n = 0
    f = l.set
    it = l.world()
    ob = lambda c, k, t, g: rep.ob(c, g.id + ": " + k, t, g.loc())
    seen = set()
    for st, v in it.start(f, [me, key, text]):
        n += 1
        ins = [e for e in st.trace if e[0] == "insert"]
        mem = [(slot(k[1]), k[1], it.deep(st, x)) for k, x in st.env.items() if k[0] == "mem"]
        mem += [(("at", e[1], e[2]), ("at", e[1], e[2]), e[3]) for e in ins]
        mem = [m for m in mem if m[0] and table in terms_all(m[0][1]) and strip(m[0][2]) == key]
        ob(all(strip(e[2]) == key and table in terms_all(e[1]) for e in ins), "file", "is another one", f)
        if not mem:
            ob(False, "text", "is not stored under the file's key", f)
            continue
        at, place, x = mem[-1]
        txt, vr = over(x, l.c_text), over(x, l.c_ver)
        ob(bool(txt) and txt[0] == "adt" and txt[1] == RESULT and txt[2] == 0 and strip(txt[3][0]) == text, "text", "is not what is stored", f)
        was = st.facts.get(("call", "discr", ("entry", at[1], at[2])))
        old = ("proj", place, l.c_ver)
        while vr and vr[0] == "call" and vr[1] in ("wrapping_add", "saturating_add") or vr and vr[0] == "proj" and vr[2] == 0 and vr[1][0] == "bin":
            vr = ("bin", "Add") + vr[2:] if vr[0] == "call" else vr[1]
        inc = bool(vr) and vr[0] == "bin" and vr[1].startswith("Add") and (vr[2] == old and ver(vr[3]) or vr[3] == old and ver(vr[2]))
        if was == 1 or known_missing(st, at):
            seen.add("new")
            ob(bool(vr) and ver(vr), "version", "of a new file is not above that of a compilation never made", f)
        else:
            seen.add("old")
            ob(inc, "version", "does not grow with a new text", f)
    rep.ob(seen >= {"old", "new"}, f.id + ": files", "are stored in one case only", f.loc())
    f = l.get
    it = l.world()
    seen = set()
    for st, v in it.start(f, [me, key]):
        n += 1
        v = it.deep(st, v)
        ins = [e for e in st.trace if e[0] == "insert"]
        s = strip(v)
        if s[0] == "at" or s[0] == "proj" and peel(s)[0] == "call":
            seen.add("old")
            a = s if s[0] == "at" else peel(s)
            m, kk = (a[1], a[2]) if a[0] == "at" else (a[2], a[3])
            ob(table in terms_all(m) and strip(kk) == key and not ins, "stored text", "is not what is answered", f)
            continue
        seen.add("new")
        ob(len(ins) == 1 and strip(ins[0][2]) == key and table in terms_all(ins[0][1]) and ins[0][3] == v, "text that was read", "is not stored, or is another one", f)
        if not (v[0] == "adt" and v[1] == l.content):
            ob(False, "text that was read", "is something else", f)
            continue
        ob(ver(v[3][l.c_ver]), "version", "of a file that was read is not above that of a compilation never made", f)
        r = v[3][l.c_text]
        # the path of the file, and what reading it gave
        tp = [x for x in st.facts if x[:2] == ("call", "discr") and x[2][:2] == ("call", "to_file_path")]
        rd = [x for x in st.facts if x[:2] == ("call", "discr") and x[2][:2] == ("call", "apply")]
        ok = [x for x in rd if st.facts[x] == 0 and x[2][2] == ("proj", me, l.f_read)]
        good = all(x[2][2] == ("proj", key, 0) for x in tp)
        ob(good, "file", "is read from the path of another one", f)
        if r[0] == "adt" and r[2] == 0:
            seen.add("read")
            ob(len(ok) == 1 and ("proj", ("proj", ok[0][2], ("v", 0)), 0) in terms_all(r[3][0]) and any(
                any(y == x[2] for y in terms_all(ok[0][2][3:])) for x in tp), "text that was read", "is something else", f)
        else:
            seen.add("unread")
            ob(not ok, "text that was read", "is lost", f)
    rep.ob(seen >= {"old", "new", "read", "unread"}, f.id + ": files", "are read in some cases only", f.loc())
    return n


def slot(t):
    """the entry of a table a place is in"""
    if t[0] == "at":
        return t
    g = peel(t)
    return ("at", g[2], g[3]) if g[0] == "call" and g[1] in ("get", "index") and len(g) == 4 else None


def known_missing(st, at):
    return any(val == 0 and x[0] == "call" and len(x) >= 3 and (
        x[:2] == ("call", "discr") and x[2][0] == "call" and x[2][1] == "get" and len(x[2]) == 4 and x[2][2:4] == at[1:3] or
        x[1] in ("contains", "contains_key") and x[2:4] == at[1:3]) for x, val in st.facts.items())


NEG = {"Lt": "Ge", "Gt": "Le", "Le": "Gt", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}
SWAP = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}


def later(st, old, new):
    """is `new` known to be a later version than `old` (versions only grow)?"""
    for x, val in st.facts.items():
        if x[0] == "bin" and x[1] in NEG and isinstance(val, int) and {x[2], x[3]} == {old, new}:
            op = x[1] if val else NEG[x[1]]
            if x[2] == new:
                op = SWAP[op]
            if op in ("Lt", "Ne"):
                return True
            if op in ("Ge", "Eq"):
                return False
    return None


def judge_refresh(prog, rep, l):
    f = l.refresh
    me = ("sym", "self")
    pj = lambda i: ("proj", me, i)
    n = 0
    seen = set()
    it = l.world([l.get.id])
    ob = lambda c, k, t: rep.ob(c, f.id + ": " + k, t, f.loc())
    for st, v in it.start(f, [me]):
        n += 1
        tr = st.trace
        v = it.deep(st, v)
        gets = [("ret", i) + e[1:2] + e[2] for i, e in enumerate(tr) if e[0] == "do" and e[1] == l.get.id]
        ob(all(strip(g[3]) == pj(l.k_files) for g in gets), "texts", "are those of other files")
        mine = [g for g in gets if strip(g[4]) == pj(l.k_key)]
        deps = {}
        for g in gets:
            k = g[4]
            if k[0] == "proj" and k[1][0] == "elem" and k[2] == 0 and pj(l.k_deps) in terms_all(k[1]):
                deps[k[1]] = g
        full = any(e[0] in ("full", "noiter") and pj(l.k_deps) in terms_all(e[1]) for e in tr)
        stale = None
        for el, g in deps.items():
            old = ("proj", ("proj", el, 1), l.d_ver)
            w = later(st, old, ("proj", g, l.c_ver))
            ob(w is not None, "dependency", "is not compared by the version it was compiled with")
            if w:
                stale = True
        unseen = any(e[0] == "iter" and pj(l.k_deps) in terms_all(e[1]) for e in tr) and not deps
        ob(not unseen, "dependency", "is not asked for its version")
        if stale is None and full and not unseen:
            stale = False
        newer = None
        for g in mine:
            w = later(st, pj(l.k_ver), ("proj", g, l.c_ver))
            newer = w if w is not None else newer
        new = [i for i, e in enumerate(tr) if e[0] == "do" and e[1] in l.k.new]
        done = it.deep(st, ("ptr", ("mem", me), ()))
        unit, version = over(done, l.k_unit), over(done, l.k_ver)
        made = unit and unit[0] == "ret" and unit[2] in l.k.new
        if stale or newer:
            seen.add("stale" if stale else "newer")
            ob(bool(made), "compilation", "is not redone after %s changed" % ("a dependency" if stale else "its text"))
        elif stale is False and newer is False:
            seen.add("current")
            ob(not new, "compilation", "is redone although nothing changed")
        else:
            ob(False, "compilation", "is kept or redone without looking at " + ("its text" if newer is None else "all dependencies"))
        ob(v == ("c", 1 if made else 0) or v == ("c", bool(made)), "answer", "is not whether the compilation was redone")
        if not made:
            ob(version == pj(l.k_ver) and unit == pj(l.k_unit), "compilation", "is changed but not redone")
            continue
        mine = [g for g in mine if g[1] < unit[1]]
        src = {("proj", g, l.c_text): g for g in mine}
        used = [g for s, g in src.items() if s in terms_all(unit[3:])]
        unread = [g for s, g in src.items() if st.facts.get(("call", "discr", s)) == 1]
        if used:
            seen.add("text")
            g = used[0]
            ob(("proj", ("proj", ("proj", g, l.c_text), ("v", 0)), 0) in [strip(a) for a in unit[3:]], "text", "is not what is compiled")
        elif unread:
            seen.add("unreadable")
            g = unread[0]
        else:
            ob(False, "text", "is not what is compiled")
            continue
        ob(version == ("proj", g, l.c_ver), "version", "is not that of the text that was compiled")
        res = [a for a in unit[3:] if a[0] == "adt" and a[1] == l.resolver]
        ob(len(res) == 1, "resolver", "is something else")
        for a in res:
            for nme, (i, t) in l.structs[l.resolver].items():
                x = strip(a[3][i])
                w = pj(l.k_key) if prog.adt_of(t) == l.keyt else pj(l.k_files) if prog.adt_of(t) == l.files else pj(l.k_deps)
                y = over(done, l.k_deps) if w == pj(l.k_deps) else w
                ob(x == w or x == y, "resolver", "does not have the %s of the compilation" % (
                    "key" if w == pj(l.k_key) else "files" if w == pj(l.k_files) else "dependencies"))
        at = unit[1]
        cleared = [i for i, e in enumerate(tr) if e[0] == "call" and short(e[1]) in ("clear", "drain") and pj(l.k_deps) in terms_all(e[2])]
        fresh = over(done, l.k_deps) != pj(l.k_deps)
        ob(fresh or any(i < at for i in cleared), "dependencies", "of the old text are kept")
        ob(not any(i > at for i in cleared), "dependencies", "of the new text are forgotten")
        ob(l.k.unlocked(tr, at), "module", "is compiled with a lock held")
    for s, what in (("stale", "changed dependencies"), ("newer", "new texts"), ("current", "unchanged files"), ("text", "texts"),
                    ("unreadable", "unreadable files")):
        rep.ob(s in seen, f.id + ": " + what, "are never found", f.loc())
    return n


def handlers(prog):
    """(kind, name in the protocol) -> functions registered for it"""
    out = {}
    for f in prog.fns.values():
        if not own(f):
            continue
        for b, t in f.calls():
            for ty in t["f"].get("a", ()):
                s = prog.tstr(ty)
                for kind in ("request", "notification"):
                    if s.startswith("lsp_types::%s::" % kind):
                        for h in pointed(prog, f, t):
                            out.setdefault((kind, s.split("::")[-1]), set()).add(h)
    return out


def pointed(prog, f, t):
    """functions a call is given pointers to"""
    def consts(x):
        if isinstance(x, dict):
            if "t" in x and isinstance(x["t"], int):
                ty = prog.types[x["t"]]
                if ty.get("k") in ("fndef", "closure"):
                    yield ty["d"]
            for y in x.values():
                yield from consts(y)
        elif isinstance(x, list):
            for y in x:
                yield from consts(y)
    for a in t["args"]:
        p = a.get("m") or a.get("c") if isinstance(a, dict) else None
        if p is None:
            yield from (d for d in consts(a) if d in prog.fns)
            continue
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == p and s[1][0] == "cast":
                    yield from (d for d in consts(s[1]) if d in prog.fns)


def only(prog, hs, kind, name):
    h = hs.get((kind, name), set())
    if len(h) != 1:
        raise Anchor("handler of %s: %s" % (name, sorted(h)))
    return prog.fns[list(h)[0]]


def listed(t):
    """the value put into the sequence an element is taken from"""
    while True:
        if t[0] == "elem" and t[1][0] == "call":
            s = t[1]
            while s[0] == "call" and (s[1].startswith("after") or s[1] in ("collect", "rev", "drain", "from_iter")) and len(s) >= 3:
                s = s[2]
            if s[0] == "call" and s[1] == "push" and s[2][0] == "vecnew":
                t = s[3]
                continue
        t2 = strip(t)
        if t2 == t:
            return t
        t = t2


def empty(t):
    while t[0] == "call" and (t[1].startswith("after") or t[1] in ("collect", "rev", "drain", "from_iter", "into_iter")) and len(t) >= 3:
        t = t[2]
    return True if t[0] == "vecnew" or t == ("arr", ()) else False if t[0] == "call" and t[1] == "push" else None


def feasible(st):
    for e in st.trace:
        if e[0] == "iter" and empty(e[1]) is True or e[0] == "noiter" and empty(e[1]) is False:
            return False
    return True


def sent(tr):
    """(position, method or kind, parameters) of what is sent"""
    for i, e in enumerate(tr):
        if e[0] == "call" and short(e[1]) == "send":
            m = e[2][1]
            yield i, m, peel(m[3][0]) if m[0] == "adt" and m[3] else None


def notification(prog, m):
    """(method, parameters) of a message that is a notification"""
    if m[0] == "adt" and m[1].endswith("::Message") and m[3] and m[3][0][0] == "adt" and m[3][0][1].endswith("::Notification"):
        n = m[3][0]
        f = {x["n"]: i for i, x in enumerate(prog.adts[n[1]]["variants"][0]["f"])} if n[1] in prog.adts else {"method": 0, "params": 1}
        method, par = n[3][f["method"]], peel(n[3][f["params"]])
        if par[:2] == ("call", "to_value"):
            par = par[2]
        return strip(method), par
    return None, None


PUBLISH = ("s", "textDocument/publishDiagnostics")


def published(prog, m):
    """(address, diagnostics)"""
    method, par = notification(prog, m)
    if method == PUBLISH and par[0] == "adt" and par[1].endswith("::PublishDiagnosticsParams"):
        f = {x["n"]: i for i, x in enumerate(prog.adts[par[1]]["variants"][0]["f"])} if par[1] in prog.adts else {"uri": 0, "diagnostics": 1}
        return strip(par[3][f["uri"]]), strip(par[3][f["diagnostics"]])
    return None


def of(s, table):
    while s[0] == "call" and s[1] in ("more", "map", "filter", "filter_map", "inspect"):
        s = s[2]
    return s == table or s[0] == "call" and s[1] in ("values", "values_mut", "keys") and s[2] == table


def judge_updates(prog, rep, l, f, st, table, after):
    """every compilation is refreshed after the event, and each that was redone is published"""
    tr = st.trace
    ob = lambda c, k, t: rep.ob(c, f.id + ": " + k, t, f.loc())
    fresh = [(i, e) for i, e in enumerate(tr) if e[0] == "do" and e[1] == l.refresh.id]
    its = [e[1] for e in tr if e[0] in ("full", "noiter") and e[1]]
    ob(len(fresh) >= sum(1 for e in tr if e[0] == "iter" and of(e[1], table)), "compilation", "is not refreshed")
    overall = [s for s in its if of(s, table)]
    ob(bool(overall), "compilations", "are not all looked at")
    ob(all(i > after for i, e in fresh), "compilations", "are refreshed before the new text is stored")
    pubs = [(i, published(prog, m)) for i, m, x in sent(tr)]
    ob(all(p for i, p in pubs), "message", "is something else than diagnostics")
    for i, e in fresh:
        c = e[2][0]
        el = c
        while el[0] == "proj":
            el = el[1]
        ob(el[0] == "elem" and of(el[1], table), "compilation", "is another one")
        made = [val for x, val in st.facts.items() if (x[1] if x[0] == "un" else x)[:3] == ("ret", i, l.refresh.id) or x[0] == "call" and x[1] == "discr" and x[2][:3] == ("ret", i, l.refresh.id)]
        now = ("after", i, l.refresh.id, c)
        key = ("proj", el, 0)
        keys = [key, ("proj", c, l.k_key), ("proj", now, l.k_key)]

        def mine(p):
            if p is None:
                return False
            uri, ds = p
            u = listed(uri[1]) if uri[0] == "proj" and uri[2] == 0 else None
            if u not in keys or not (ds[0] == "ret" and ds[2] == l.diags.id):
                return False
            w = ds[3]
            if w[0] == "proj" and w[2] == l.k_unit:
                w = w[1]
                if w in (c, now):
                    return True
                if w[0] == "proj" and w[1] == ("proj", peel(w), ("v", 1)):
                    w = peel(w)
                g = peel(w)
                return g[0] == "call" and g[1] in ("get", "index") and g[2] == table and listed(g[3]) in keys
            return False
        here = [p for j, p in pubs if j > i and mine(p)]
        if made and made[0]:
            ob(len(here) == 1, "diagnostics", "of a compilation that was redone are not what is published, once, under its address")
        elif made:
            ob(not here, "diagnostics", "are published for a compilation that was not redone")
        else:
            ob(False, "diagnostics", "are published without asking if the compilation was redone")
    for e in tr:
        if e[0] == "iter" and empty(e[1]) is False:
            ob(("full", e[1]) in tr, "diagnostics", "of some compilations only are published")
    ob(not pubs or bool(fresh), "diagnostics", "are published for nothing")
    return len(fresh)


def judge_handlers(prog, rep, l):
    hs = handlers(prog)
    n = 0
    server = [d for d, fs in l.structs.items() if any("Sender<" in prog.tstr(t) for i, t in fs.values())]
    if len(server) != 1:
        raise Anchor("server")
    sv = ("sym", "server")
    par = ("sym", "params")

    # where the compilations are
    def paths_to(adt, base, want, d=0):
        for nme, (i, t) in l.structs.get(adt, {}).items():
            if want(t):
                yield ("proj", base, i)
            elif prog.adt_of(t) in l.structs and d < 3:
                yield from paths_to(prog.adt_of(t), ("proj", base, i), want, d + 1)
    comps = list(paths_to(server[0], sv, lambda t: l.comp in prog.tstr(t) and "Map<" in prog.tstr(t)))
    files = list(paths_to(server[0], sv, lambda t: prog.adt_of(t) == l.files))
    if len(comps) != 1 or not files:
        raise Anchor("compilations of the server")
    table = comps[0]
    closed = [l.set.id, l.get.id, l.refresh.id, l.diags.id]

    for name in ("DidOpenTextDocument", "DidChangeTextDocument", "DidCloseTextDocument"):
        f = only(prog, hs, "notification", name)
        it = l.world(closed)
        it.loop_bound = 3
        it.twice = True
        seen = set()
        ob = lambda c, k, t: rep.ob(c, f.id + ": " + k, t, f.loc())
        uri = named(prog, f, par, ("text_document", "uri"))
        is_key = lambda t: strip(t)[0] == "adt" and strip(t)[1] == l.keyt and strip(strip(t)[3][0]) == uri
        for st, v in it.start(f, [sv, par]):
            if not feasible(st):
                continue
            n += 1
            tr = st.trace
            sets = [(i, e) for i, e in enumerate(tr) if e[0] == "do" and e[1] == l.set.id]
            ins = [(i, e) for i, e in enumerate(tr) if e[0] == "insert" and e[1] == table]
            rem = [(i, e) for i, e in enumerate(tr) if e[0] == "remove" and e[1] == table]
            emptied = [e for e in tr if e[0] == "call" and short(e[1]) in ("clear", "retain", "drain") and table in e[2]]
            ob(not emptied, "compilations", "of other files are dropped")
            if name == "DidCloseTextDocument":
                seen.add("close")
                ob(len(rem) == 1 and is_key(rem[0][1][2]) and not ins, "closed file", "is still compiled, or another one is dropped")
                pubs = [published(prog, m) for i, m, x in sent(tr)]
                ob(len(pubs) == 1 and pubs[0] is not None and listed(pubs[0][0]) in (uri,) and empty(pubs[0][1]) is True, "diagnostics",
                   "of a closed file are not taken back")
                ob(not any(e[0] == "do" and e[1] == l.refresh.id for e in tr) and not sets, "closed file", "changes others")
                continue
            ob(not rem, "file", "is dropped")
            if name == "DidOpenTextDocument":
                text = named(prog, f, par, ("text_document", "text"))
                ob(len(ins) == 1, "opened file", "is not compiled, or others are")
                for i, e in ins:
                    c = e[3]
                    ok = is_key(e[2]) and c[0] == "adt" and c[1] == l.comp
                    ob(ok, "opened file", "is not compiled under its key")
                    if ok:
                        ob(is_key(c[3][l.k_key]), "compilation", "has another key")
                        ob(strip(c[3][l.k_files]) in files, "compilation", "has other files")
                        ob(c[3][l.k_ver] == ("c", 0), "compilation", "is taken to be up to date before it was made")
                        d = c[3][l.k_deps]
                        ob(d[0] == "call" and d[1] in ("default", "new") or d[0] in ("map",), "compilation", "has dependencies before it was made")
                        ob(all(i < j for j, x in enumerate(tr) if x[0] == "do" and x[1] == l.refresh.id), "opened file", "is compiled too late")
            else:
                ob(not ins, "changed file", "is compiled anew")
                cs = named(prog, f, par, ("content_changes",))
                asked = [(x, val) for x, val in st.facts.items() if x[:2] == ("call", "discr") and x[2][0] == "call" and cs in terms_all(x[2])]
                none = any(val == 0 for x, val in asked if isinstance(val, int)) or any(e[0] == "noiter" and cs in terms_all(e[1]) for e in tr)
                if none:
                    seen.add("unchanged")
                    ob(not sets, "file", "that did not change gets a text")
                    continue
                seen.add("change")
                text = None
            ob(len(sets) == 1, "text", "is not stored once")
            for i, e in sets:
                ob(strip(e[2][0]) in files and is_key(e[2][1]), "text", "is stored for another file")
                if text is not None:
                    ob(strip(e[2][2]) == text, "text", "is not what the client sent")
                else:
                    t = strip(e[2][2])
                    last = t[0] == "proj" and last_of(peel(t), cs)
                    ob(last and t[2] == event_text(prog), "text", "is not that of the last change")
            if sets:
                k = judge_updates(prog, rep, l, f, st, table, sets[0][0])
                seen.add("compilations" if k else "none")
        need = {"DidOpenTextDocument": {"compilations"}, "DidChangeTextDocument": {"compilations", "change", "unchanged"},
                "DidCloseTextDocument": {"close"}}[name]
        rep.ob(seen >= need, f.id + ": paths", "are missing: " + ", ".join(sorted(need - seen)), f.loc())
    # all tables of files of the server are the same one
    m = [f for f in l.fns if f.kind == "fn" and any(s[1][0] == "agg" and server[0] in str(s[1]) for b in f.blocks for s in b["s"])]
    k = 0
    for f in m:
        it = l.world([g.id for g in l.fns if g.nargs >= 2 and prog.adt_of(g.locals[2] if g.nargs >= 2 else g.locals[0]) == server[0]])
        for st, v in it.start(f, [("sym", "a%d" % i) for i in range(f.nargs)]):
            for e in st.trace:
                if e[0] == "do":
                    for a in e[2]:
                        if a[0] == "adt" and a[1] == server[0]:
                            k += 1
                            fs = [strip(x) for x in sub(a, l.files)]
                            rep.ob(len(fs) == len(files) and len(set(map(share, fs))) == 1, f.id + ": tables of files", "are different ones", f.loc())
    rep.floor("servers made", k, 1)
    return n


def sub(v, adt):
    if v[0] == "adt":
        if v[1] == adt:
            return [v]
        return [y for x in v[3] for y in sub(x, adt)]
    return []


def share(v):
    return repr(v)


def last_of(t, cs):
    if t[0] == "call" and t[1] in ("last", "pop", "next_back", "last_mut", "into_last") and cs in terms_all(t):
        return not any(y[0] == "call" and y[1] in ("rev", "filter", "skip", "take") for y in terms_all(t))
    return False


def event_text(prog):
    fs = prog.adts["lsp_types::TextDocumentContentChangeEvent"]["variants"][0]["f"]
    return [i for i, x in enumerate(fs) if x["n"] == "text"][0]


def judge_sync(prog, rep, l):
    """changes are whole documents"""
    fs = [f for f in l.fns if str(prog.adt_of(f.locals[0])).endswith("::ServerCapabilities") and f.nargs == 0]
    if len(fs) != 1:
        raise Anchor("capabilities")
    f = fs[0]
    cap = prog.adt_of(f.locals[0])
    i = [i for i, x in enumerate(prog.adts[cap]["variants"][0]["f"]) if x["n"] == "text_document_sync"][0]
    n = 0
    it = l.world()
    for st, v in it.start(f, []):
        n += 1
        x = over(it.deep(st, v), i)
        kinds = {y[2] for y in every(x) if y[0] == "adt" and y[1] == "lsp_types::TextDocumentSyncKind"}
        full = [k for k, y in enumerate(prog.adts["lsp_types::TextDocumentSyncKind"]["variants"]) if y["n"] == "Full"]
        rep.ob(kinds == set(full), f.id + ": changes", "are not asked for as whole documents", f.loc())
    return n


def every(x):
    if isinstance(x, tuple):
        if x and x[0] == "adt":
            yield x
        for y in x:
            yield from every(y)


def named(prog, f, par, names):
    """the term of a field of the parameters, by names"""
    t, ty = par, prog.adt_of(f.locals[2])
    for n in names:
        if ty not in prog.adts:
            raise Anchor("type of parameters")
        hit = [(i, x["t"]) for i, x in enumerate(prog.adts[ty]["variants"][0]["f"]) if x["n"] == n]
        if not hit:
            raise Anchor("field %s of %s" % (n, ty))
        t = ("proj", t, hit[0][0])
        ty = prog.adt_of(hit[0][1])
    return t


def run(prog, rep):
    l = L(prog, rep)
    rep.floor("paths of the table of files", judge_files(prog, rep, l), 6)
    rep.floor("paths of refreshing", judge_refresh(prog, rep, l), 6)
    rep.floor("paths of handlers", judge_handlers(prog, rep, l), 6)
    rep.floor("capabilities", judge_sync(prog, rep, l), 1)
