"""C25: every request is answered once, from the compilation of its file, in the coordinates of the editor."""
from ..mir import Anchor
from ..front import OPTION, RESULT, items
from . import c08
from .c09 import UNIT
from .c16 import L, own, handlers, over, every, sent, named, notification
from .c17 import fields, strip, peel, opt, terms_all, short

RULE = ("for every announced capability a handler of its request is registered; on every path of it the answer is that of the compiler's "
        "query about the file and position that were asked for, in the editor's coordinates of that file; every request is answered once "
        "under its own id, by the handler of its method or with an error, until the client asks to shut down")
ASSUMPTIONS = ["lsp_server's extract compares the method and lsp_types' method names are those of the protocol"]
SPAN, POS = "ticc_syntax::pos::Span", "ticc_syntax::pos::Pos"
# capability -> request
ANNOUNCED = {"hover_provider": "HoverRequest", "completion_provider": "Completion", "definition_provider": "GotoDefinition",
             "declaration_provider": "GotoDeclaration", "references_provider": "References",
             "semantic_tokens_provider": "SemanticTokensFullRequest", "type_definition_provider": "GotoTypeDefinition",
             "implementation_provider": "GotoImplementation", "document_highlight_provider": "DocumentHighlightRequest",
             "document_symbol_provider": "DocumentSymbolRequest", "workspace_symbol_provider": "WorkspaceSymbol",
             "code_action_provider": "CodeActionRequest", "code_lens_provider": "CodeLensRequest",
             "document_formatting_provider": "Formatting", "document_range_formatting_provider": "RangeFormatting",
             "document_on_type_formatting_provider": "OnTypeFormatting", "rename_provider": "Rename",
             "signature_help_provider": "SignatureHelpRequest", "selection_range_provider": "SelectionRangeRequest",
             "folding_range_provider": "FoldingRangeRequest", "document_link_provider": "DocumentLinkRequest",
             "color_provider": "DocumentColor", "execute_command_provider": "ExecuteCommand"}
ASKS = {"GotoDefinition": "definition", "GotoDeclaration": "definition", "References": "references", "HoverRequest": "info",
        "Completion": "completions", "SemanticTokensFullRequest": "tokens"}


def index(prog, adt, n):
    return [i for i, f in enumerate(prog.adts[adt]["variants"][0]["f"]) if f["n"] == n][0]


class Q:
    """the compiler's queries and the editor's coordinates"""

    def __init__(self, prog, l):
        self.prog, self.l = prog, l
        own_ = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and not f.derived and f.nargs >= 1 and
                prog.adt_of(f.locals[1]) == UNIT and "::tests" not in f.id and f.id.startswith("ticc::CompilationUnit::")]
        s = lambda f: prog.tstr(f.locals[0])
        pos = [f for f in own_ if f.nargs == 2 and prog.adt_of(f.locals[2]) == POS]
        inner = lambda f: prog.adt_of(f.locals[0]) == OPTION

        def one(what, l):
            if len(l) != 1:
                raise Anchor("%s: %s" % (what, [f.id for f in l]))
            return l[0]
        self.definition = one("definition of a name", [f for f in pos if s(f) == "%s<%s>" % (OPTION, SPAN)])
        self.references = one("references of a name", [f for f in pos if SPAN in s(f) and "Vec<" in s(f)])
        rest = [f for f in pos if f not in (self.definition, self.references)]
        self.completions = one("completions", [f for f in rest if "Vec<" in s(f)])
        self.info = one("information about a name", [f for f in rest if "Vec<" not in s(f)])
        self.source = one("source of a unit", [f for f in own_ if f.nargs == 1 and "str" in s(f) and "Arc<" in s(f)])
        self.ask = {"definition": self.definition.id, "references": self.references.id, "completions": self.completions.id, "info": self.info.id}
        self.tr = one("translator", [d for d, fs in l.structs.items() if any(prog.tstr(t) == "&str" for i, t in fs.values())])
        self.tr_src = [i for i, t in l.structs[self.tr].values() if prog.tstr(t) == "&str"][0]
        self.tokens = one("tokens", [f for f in l.fns if f.kind == "fn" and not f.derived and "SemanticToken>" in s(f)])
        self.closed = [f.id for f in prog.fns.values() if f.crate == "ticc" and f.file.startswith("ticc/src") and not f.file.endswith("main.rs")]
        self.info_adt = [d for d in prog.adts if d.startswith("ticc::") and d in s(self.info)][0]
        self.comp_adt = [d for d in prog.adts if d.startswith("ticc::") and d in s(self.completions)][0]

    def unit(self, t):
        """what a unit in any version belongs to"""
        while t[0] == "after":
            t = t[3]
        return t

    def translator(self, t, unit):
        """the coordinates of the unit's source"""
        while t[0] in ("after", "upd") or t[0] == "call" and t[1].startswith("after"):
            t = t[3] if t[0] == "after" else t[1] if t[0] == "upd" else t[2]
        if t[0] != "adt" or t[1] != self.tr:
            return False
        s = strip(t[3][self.tr_src])
        return s[0] == "ret" and s[2] == self.source.id and self.unit(s[3]) == unit

    def place(self, t, unit, what):
        """is it the editor's range of that span?"""
        t = strip(t)
        if t[0] == "call" and t[1] == "to_lsp" and len(t) == 4:
            return strip(t[2]) == what and self.translator(t[3], unit)
        if t[0] == "adt" and t[1].endswith("::Range"):
            a, b = t[3]
            return all(x[0] == "call" and x[1] == "to_lsp" and self.translator(x[3], unit) and x[2] == ("proj", what, i) for i, x in enumerate((a, b)))
        return False


def given(t, base):
    """the payload of an optional"""
    return t in (("proj", ("proj", base, ("v", 1)), 0), ("call", "ok", base), ("ok", base))


def judge_requests(prog, rep, l, q):
    hs = handlers(prog)
    n = 0
    server = [d for d, fs in l.structs.items() if any("Sender<" in prog.tstr(t) for i, t in fs.values())][0]
    for name, ask in sorted(ASKS.items()):
        if ("request", name) not in hs:
            continue
        for h in sorted(hs["request", name]):
            n += judge_request(prog, rep, l, q, prog.fns[h], name, ask, server)
    return n


def find(prog, ty, want, base, d=0):
    """the terms of the parts of a type"""
    if prog.adt_of(ty) == want:
        yield base
        return
    a = prog.adts.get(prog.adt_of(ty))
    if a and a["kind"] == "struct" and d < 5 and str(prog.adt_of(ty)).startswith("lsp_types::"):
        for i, f in enumerate(a["variants"][0]["f"]):
            yield from find(prog, f["t"], want, ("proj", base, i), d + 1)


def judge_request(prog, rep, l, q, f, name, ask, server):
    sv, par = ("sym", "server"), ("sym", "params")
    uris = list(find(prog, f.locals[2], "url::Url", par))
    poss = list(find(prog, f.locals[2], "lsp_types::Position", par))
    if len(uris) != 1 or len(poss) != (0 if ask == "tokens" else 1):
        raise Anchor("parameters of %s" % name)
    uri = uris[0]
    it = l.world(q.closed + [q.tokens.id])
    it.musts = True
    it.twice = False
    ob = lambda c, k, t: rep.ob(c, "%s of %s: %s" % (f.id, name, k), t, f.loc())
    n = 0
    seen = set()
    is_table = lambda t: t[0] == "proj" and sv in terms_all(t)
    for st, v in it.start(f, [sv, par]):
        n += 1
        v = it.deep(st, v)
        tr = st.trace
        asks = [e for e in tr if e[0] in ("ask", "ask?")]
        is_key = lambda t: strip(t)[0] == "adt" and strip(t)[1] == l.keyt and strip(strip(t)[3][0]) == uri
        ob(all(is_key(e[2]) and is_table(e[1]) for e in asks) and asks, "file", "is another one than that of the request")
        got = [("call", "get", e[1], e[2]) for e in asks]
        absent = any(st.facts.get(("call", "discr", g)) == 0 for g in got)
        if absent:
            seen.add("absent")
            ob(opt(v) is None, "file that is not open", "is answered with something")
            continue
        ob(not [e for e in tr if e[0] == "must" and any(y in got or y[0] == "ret" and y[2] in q.ask.values() for y in [e[1]])], "answer",
           "is taken for granted: the server stops without one")
        queries = [(i, e) for i, e in enumerate(tr) if e[0] == "do" and e[1] in list(q.ask.values()) + [q.tokens.id]]
        unit = None
        bad = False
        for i, e in queries:
            u = q.unit(e[2][0])
            o = u[1] if u[0] == "proj" and u[2] == l.k_unit else u
            if not (u != o and any(given(o, g) for g in got)):
                bad = True
            unit = u
            if e[1] in q.ask.values():
                p = e[2][1]
                good = p[0] == "call" and p[1] == "to_ticc" and p[2] == poss[0] and q.translator(p[3], u)
                ob(good, "position", "is not the one of the request, in the file's coordinates")
        ob(not bad and bool(queries), "answer", "is that about another file")
        if bad or not queries:
            continue
        rets = {}
        for i, e in queries:
            rets[e[1]] = ("ret", i, e[1]) + e[2]
        want = q.tokens.id if ask == "tokens" else q.ask[ask]
        others = set(rets) - {want} - ({q.ask["definition"]} if ask == "references" else set())
        ob(want in rets and not others, "answer", "is that to another question")
        if want not in rets:
            continue
        r = rets[want]
        d = st.facts.get(("call", "discr", r))
        if d == 0:
            seen.add("none")
            ob(opt(v) is None, "answer", "is made up where there is none")
            continue
        x = opt(v)
        if not x:
            ob(False, "answer", "is dropped")
            continue
        seen.add("some")
        loc = lambda t, what: t[0] == "adt" and t[1].endswith("::Location") and strip(t[3][index(prog, t[1], "uri")]) == uri and \
            q.place(t[3][index(prog, t[1], "range")], unit, what)
        pays = [("proj", ("proj", r, ("v", 1)), 0), ("call", "ok", r), ("ok", r)]
        if ask == "definition":
            ls = [y for y in every(x) if y[1].endswith("::Location")]
            ob(len(ls) == 1 and any(loc(ls[0], p) for p in pays), "definition", "is at another place")
        elif ask == "references":
            xs = items(x)
            if xs is None:
                ob(False, "references", "are not all given")
                continue
            dr = rets.get(q.ask["definition"])
            refs = [y for y in xs if any(loc(y, ("elem", p)) for p in pays)]
            ob(len(refs) == 1, "references", "are at other places, or not all given")
            inc = named(prog, f, par, ("context", "include_declaration"))
            wants = st.facts.get(inc)
            rest = [y for y in xs if y not in refs]
            have = dr and st.facts.get(("call", "discr", dr)) == 1
            defs = [y for y in rest if dr and any(loc(y, p) for p in (("proj", ("proj", dr, ("v", 1)), 0), ("call", "ok", dr), ("ok", dr)))]
            seen.add(("declaration", wants, bool(have)))
            ob(wants is not None, "declaration", "is given without looking if it is asked for")
            ob(len(rest) == len(defs), "references", "are more than those of the name")
            ob(len(defs) == (1 if wants and (have or defs) else 0), "declaration", "is not given although it is asked for" if wants else
               "is given although it is not asked for")
            ob(not wants or dr is not None, "declaration", "is not looked for although it is asked for")
        elif ask == "info":
            fs = fields(prog, q.info_adt)
            sp = [i for i, t in fs.values() if prog.adt_of(t) == SPAN][0]
            doc = [i for i, t in fs.values() if prog.adt_of(t) != SPAN]
            h = x
            rng = over(h, index(prog, h[1], "range")) if h[0] == "adt" else None
            con = over(h, index(prog, h[1], "contents")) if h[0] == "adt" else ()
            ob(any(any(("proj", p, i) in terms_all(con) for i in doc) for p in pays), "text", "is not what the compiler knows")
            ob(bool(rng) and bool(opt(rng)) and any(q.place(opt(rng), unit, ("proj", p, sp)) for p in pays), "range", "is not that of the name")
        elif ask == "completions":
            fs = fields(prog, q.comp_adt)
            nm = [i for n_, (i, t) in fs.items() if prog.tstr(t).endswith("String")][0]
            ls = [y for y in every(x) if y[1].endswith("::CompletionItem")]
            ob(len(ls) == 1, "completions", "are not all given")
            ob(all(any(strip(y[3][index(prog, y[1], "label")]) == ("proj", ("elem", p), nm) for p in pays) for y in ls), "completions", "are other names")
            seqs = [items(y) for y in seqs_of(x)]
            ob(any(s is not None and len(s) == 1 for s in seqs), "completions", "are not all given")
        elif ask == "tokens":
            ts = [y for y in every(x) if y[1].endswith("::SemanticTokens")]
            ob(len(ts) == 1 and strip(ts[0][3][index(prog, ts[0][1], "data")]) == r, "tokens", "are others than those of the file")
    if ask == "references":
        need = {("declaration", 0, False), ("declaration", 1, True), ("declaration", 1, False)}
        got = {x for x in seen if isinstance(x, tuple)}
        rep.ob(("declaration", 1, True) in got and any(x[1] == 0 for x in got), f.id + ": declaration", "is never given, or always", f.loc())
    rep.ob("some" in seen, f.id + ": " + name, "is never answered", f.loc())
    return n


def seqs_of(x):
    if isinstance(x, tuple):
        if x[:2] == ("call", "push"):
            yield x
            return
        for y in x:
            yield from seqs_of(y)


def judge_capabilities(prog, rep, l):
    hs = handlers(prog)
    f = [f for f in l.fns if str(prog.adt_of(f.locals[0])).endswith("::ServerCapabilities") and f.nargs == 0]
    if len(f) != 1:
        raise Anchor("capabilities")
    f = f[0]
    cap = prog.adt_of(f.locals[0])
    it = l.world()
    n = 0
    for st, v in it.start(f, []):
        v = it.deep(st, v)
        said = set()
        for i, x in enumerate(prog.adts[cap]["variants"][0]["f"]):
            y = over(v, i)
            if y and opt(y) and x["n"] in ANNOUNCED:
                z = opt(y)
                off = z[0] == "adt" and len(z[3]) == 1 and z[3][0] == ("c", 0)
                if not off:
                    n += 1
                    said.add(ANNOUNCED[x["n"]])
                    rep.ob(("request", ANNOUNCED[x["n"]]) in hs, "capability " + x["n"], "is announced but its request is not answered", f.loc())
                if x["n"] == "semantic_tokens_provider":
                    o = [y for y in every(z) if y[1].endswith("::SemanticTokensOptions")]
                    for y in o:
                        r = opt(y[3][index(prog, y[1], "range")])
                        rep.ob(not (r and r != ("c", 0)) or ("request", "SemanticTokensRangeRequest") in hs, "tokens of a range",
                               "are announced but their request is not answered", f.loc())
                        full = opt(y[3][index(prog, y[1], "full")])
                        rep.ob(bool(full) and ("c", 0) not in full[3], "tokens", "are not announced", f.loc())
                if x["n"] == "completion_provider":
                    for y in every(z):
                        if y[1].endswith("::CompletionOptions"):
                            r = opt(y[3][index(prog, y[1], "resolve_provider")])
                            rep.ob(not (r and r != ("c", 0)) or ("request", "ResolveCompletionItem") in hs, "resolved completions",
                                   "are announced but their request is not answered", f.loc())
        for name in ASKS:
            if ("request", name) in hs:
                rep.ob(name in said, "request " + name, "is answered but not announced", f.loc())
    return n


def judge_dispatch(prog, rep, l):
    """each message goes to the handler of its method, and a request is answered once"""
    n = 0
    sv, rq = ("sym", "server"), ("sym", "message")
    server = [d for d, fs in l.structs.items() if any("Sender<" in prog.tstr(t) for i, t in fs.values())][0]
    disp = {}
    for kind in ("Request", "Notification"):
        disp[kind] = [f for f in l.fns if f.kind == "fn" and any(prog.tstr(t) == "lsp_server::msg::" + kind or str(prog.adt_of(t)) == "lsp_server::msg::" + kind
                                                                for t in f.locals[1:f.nargs + 1]) and
                      any(prog.adt_of(t) == server for t in f.locals[1:f.nargs + 1])]
        if len(disp[kind]) != 1:
            raise Anchor("dispatch of a %s: %s" % (kind, [f.id for f in disp[kind]]))
        f = disp[kind][0]
        args = [("sym", "a%d" % i) for i in range(f.nargs)]
        for i, t in enumerate(f.locals[1:f.nargs + 1]):
            if prog.adt_of(t) == "lsp_server::msg::" + kind:
                args[i] = rq
        it = l.world()
        it.twice = True
        it.loop_bound = 3
        ob = lambda c, k, t: rep.ob(c, f.id + ": " + k, t, f.loc())
        outs = it.start(f, args)
        seen = set()
        ri = {x["n"]: i for i, x in enumerate(prog.adts["lsp_server::msg::" + kind]["variants"][0]["f"])}
        for st, v in outs:
            n += 1
            tr = st.trace
            applied = [("call", "apply") + e[2] for e in tr if e[0] == "call" and e[1] == "apply"]
            cur, done = rq, None
            for a in applied:
                msg = a[-1]
                ob(done is None, "message", "is handled twice")
                ob(strip(msg) == cur, "message", "is another one for the next handler")
                d = st.facts.get(("call", "discr", a))
                if d == 0:
                    done = a
                elif d == 1:
                    cur = ("proj", ("proj", a, ("v", 1)), 0)
                else:
                    ob(False, "handler", "is not asked if it handled the message")
            whole = complete(tr)
            ob(done is not None or whole, "message", "is not offered to all handlers")
            iters = [e for e in tr if e[0] == "iter"]
            ob(len(applied) >= len(iters), "handler", "is not offered the message")
            if kind == "Notification":
                ob(not list(sent(tr)), "notification", "is answered")
                seen.add(done is not None)
                continue
            res = [m for i, m, x in sent(tr)]
            ob(len(res) == 1, "request", "is answered %d times" % len(res) if res else "is not answered")
            for m in res:
                ok = m[0] == "adt" and m[1].endswith("::Message") and prog_variant(prog, m) == "Response"
                ob(ok, "request", "is answered with something else")
                if not ok:
                    continue
                r = m[3][0]
                if done is not None:
                    seen.add("handled")
                    ob(strip(r) == ("proj", ("proj", done, ("v", 0)), 0), "answer", "is not that of the handler")
                else:
                    seen.add("unknown")
                    rid = ("proj", cur, ri["id"])
                    if r[0] == "adt":
                        fs = {x["n"]: i for i, x in enumerate(prog.adts[r[1]]["variants"][0]["f"])}
                        ob(strip(r[3][fs["id"]]) == rid and opt(r[3][fs["error"]]), "unknown method", "is not answered with an error")
                    else:
                        ob(r[:2] == ("call", "new_err") and strip(r[2]) == rid, "unknown method", "is not answered with an error")
        rep.ob({"handled", "unknown"} <= seen if kind == "Request" else seen == {True, False}, f.id + ": paths", "are missing", f.loc())
        # the handlers themselves
        cl = [g for g in l.fns if g.kind == "closure" and any(prog.adt_of(t) == "lsp_server::msg::" + kind for t in g.locals[1:g.nargs + 1])]
        k = 0
        for g in cl:
            args = [("sym", "c"), ("sym", "server"), rq][:g.nargs]
            it = l.world()
            it.musts = True
            got = set()
            ob = lambda c, k, t: rep.ob(c, g.id + ": " + k, t, g.loc())
            for st, v in it.start(g, args):
                v = it.deep(st, v)
                k += 1
                tr = st.trace
                ex = [e for e in tr if e[0] == "call" and short(e[1]) == "extract"]
                ob(len(ex) == 1 and strip(ex[0][2][0]) == rq and str(ex[0][2][1]).find("%s::METHOD" % kind) >= 0, "method", "is not compared with that of the handler")
                if len(ex) != 1:
                    continue
                x = ("call", "extract") + ex[0][2]
                d = st.facts.get(("call", "discr", x))
                ap = [("call", "apply") + e[2] for e in tr if e[0] == "call" and e[1] == "apply"]
                if d == 1:
                    got.add("other")
                    ob(not ap, "handler", "runs for another method")
                    ob(v[0] == "adt" and v[1] == RESULT and v[2] == 1 and strip(v[3][0]) == ("proj", ("proj", x, ("v", 1)), 0), "message", "of another method is lost")
                    continue
                ob(d == 0, "method", "is not compared with that of the handler")
                got.add("own")
                pay = ("proj", ("proj", x, ("v", 0)), 0)
                params = ("proj", pay, 1) if kind == "Request" else pay
                ob(len(ap) == 1 and ap[0][2][0] == "proj" and ap[0][3:] == (("sym", "server"), params), "handler", "is not given what was sent, once")
                ob(v[0] == "adt" and v[1] == RESULT and v[2] == 0, "message", "is not taken as handled")
                if kind == "Request" and v[0] == "adt" and v[2] == 0 and len(ap) == 1:
                    r = v[3][0]
                    ok = r[0] == "adt" and r[1].endswith("::Response")
                    if ok:
                        fs = {y["n"]: i for i, y in enumerate(prog.adts[r[1]]["variants"][0]["f"])}
                        res = opt(r[3][fs["result"]])
                        ok = strip(r[3][fs["id"]]) == ("proj", pay, 0) and bool(res) and ap[0] in terms_all(res) and opt(r[3][fs["error"]]) is None
                        ob(bool(ok), "answer", "is not the handler's, under the request's id")
                    elif r[:2] == ("call", "new_ok"):
                        ob(strip(r[2]) == ("proj", pay, 0) and strip(r[3]) == ap[0], "answer", "is not the handler's, under the request's id")
                    else:
                        ob(False, "answer", "is something else")
            rep.ob(got == {"own", "other"}, g.id + ": paths", "are missing", g.loc())
        rep.floor("paths of a handler of a " + kind.lower(), k, 2)
    # the loop
    loops = [f for f in l.fns if f.kind == "fn" and any(c.id in {disp["Request"][0].id} for c in callees(prog, f)) and
             f.id not in {x[0].id for x in disp.values()}]
    if len(loops) != 1:
        raise Anchor("loop over the messages")
    f = loops[0]
    it = l.world([x[0].id for x in disp.values()])
    ob = lambda c, k, t: rep.ob(c, f.id + ": " + k, t, f.loc())
    seen = set()
    for st, v in it.start(f, [("sym", "a%d" % i) for i in range(f.nargs)]):
        v = it.deep(st, v)
        n += 1
        tr = st.trace
        its = [e[1] for e in tr if e[0] == "iter"]
        if not its:
            continue
        kinds = [(x[2], val) for x, val in st.facts.items() if x[:2] == ("call", "discr") and x[2][0] == "elem" and isinstance(val, int)]
        if not kinds:
            if [1 for x in st.facts if x[:2] == ("call", "discr") and x[2][0] == "elem"]:
                continue
            ob(False, "message", "is not looked at")
            continue
        el, val = kinds[0]
        vn = prog.adts["lsp_server::msg::Message"]["variants"][val]["n"]
        does = {k: [e for e in tr if e[0] == "do" and e[1] == disp[k][0].id] for k in disp}
        end = [e for e in tr if e[0] == "call" and short(e[1]) == "handle_shutdown"]
        msg = ("proj", ("proj", el, ("v", val)), 0)
        whole = complete(tr)
        if vn == "Request":
            ob(len(end) == 1 and strip(end[0][2][1]) == msg, "request to shut down", "is not told from others")
            sh = [v2 for x, v2 in st.facts.items() if end and ("call", "handle_shutdown") + end[0][2] in terms_all(x) and isinstance(v2, int)]
            down = sh and sh[-1] == 1
            if down:
                seen.add("shutdown")
                ob(not does["Request"] and not whole, "shutdown", "is not obeyed")
                continue
            seen.add("request")
            ob(len(does["Request"]) == 1 and strip(does["Request"][0][2][-1]) == msg and not does["Notification"], "request", "is not handled once")
        elif vn == "Notification":
            seen.add("notification")
            ob(len(does["Notification"]) == 1 and strip(does["Notification"][0][2][-1]) == msg and not does["Request"], "notification", "is not handled once")
        ob(whole, "messages", "are no longer read after a " + vn.lower())
    rep.ob({"request", "notification", "shutdown"} <= seen, f.id + ": messages", "are not told apart", f.loc())
    return n


def complete(tr):
    """a sequence was read to its end"""
    return any(e[0] in ("full", "noiter") and e[1] and not any(y[0] == "call" and y[1] in ("take", "skip", "filter", "take_while", "skip_while", "step_by")
                                                              for y in terms_all(e[1])) for e in tr)


def callees(prog, f):
    for b, t in f.calls():
        yield from prog.targets(t)


def prog_variant(prog, m):
    a = prog.adts.get(m[1])
    return a["variants"][m[2]]["n"] if a else None


def judge_diagnostics(prog, rep, l, q):
    """what the editor is shown for a file"""
    f = l.diags
    u = ("sym", "unit")
    it = l.world(q.closed)
    ob = lambda c, k, t: rep.ob(c, f.id + ": " + k, t, f.loc())
    n = 0
    sevs = [x["n"] for x in prog.adts["ticc::Severity"]["variants"]]
    ds = [x["t"] for x in prog.adts[c08.DIAG]["variants"][0]["f"]]
    sp = [i for i, t in enumerate(ds) if prog.adt_of(t) == SPAN][0]
    si = [i for i, t in enumerate(ds) if prog.adt_of(t) == "ticc::Severity"][0]
    ms = [i for i, t in enumerate(ds) if i not in (sp, si)][0]
    seen = set()
    for st, v in it.start(f, [u]):
        v = it.deep(st, v)
        n += 1
        xs = items(v)
        if xs is None or len(xs) > 1:
            ob(False, "diagnostics", "are not all given")
            continue
        if not xs:
            ob(any(e[0] == "noiter" for e in st.trace), "diagnostics", "are not all given")
            continue
        x = xs[0]
        di = [("ret", i, e[1]) + e[2] for i, e in enumerate(st.trace) if e[0] == "do" and e[1] in l.k.diag]
        ob(len(di) == 1 and q.unit(di[0][3]) == u, "diagnostics", "are those of another unit")
        if len(di) != 1 or x[0] != "adt":
            continue
        el = ("elem", di[0])
        g = lambda nm: over(x, index(prog, x[1], nm))
        ob(q.place(g("range"), u, ("proj", el, sp)), "range", "is not that of the diagnostic")
        ob(strip(g("message")) == ("proj", el, ms), "message", "is not that of the diagnostic")
        s = opt(g("severity"))
        d = st.facts.get(("call", "discr", ("proj", el, si)))
        kind = prog.adts[s[1]]["variants"][s[2]]["n"] if s and s[0] == "adt" and s[1] in prog.adts else s
        if isinstance(d, int):
            seen.add(sevs[d])
            ob(kind == sevs[d], "severity", "is not that of the diagnostic")
        else:
            ob(False, "severity", "is not that of the diagnostic")
    rep.ob(seen == set(sevs), f.id + ": severities", "are not told apart", f.loc())
    return n


def run(prog, rep):
    l = L(prog, rep)
    q = Q(prog, l)
    rep.floor("paths of the request handlers", judge_requests(prog, rep, l, q), 6)
    rep.floor("announced capabilities", judge_capabilities(prog, rep, l), 6)
    rep.floor("paths of the dispatch", judge_dispatch(prog, rep, l), 8)
    rep.floor("paths of the diagnostics", judge_diagnostics(prog, rep, l, q), 2)
