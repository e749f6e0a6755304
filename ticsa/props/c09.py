"""C09: every item goes through every stage once, in order, knowing what comes before it."""
from ..mir import Anchor, op_place, rv_operands, rv_places
from ..front import show
from ..world import World, path
from .c14 import K as K14, ITEM, UNIT
from .c04 import terms
from .c11 import K as K11

RULE = ("on every path through the compilation loop the text after the last item is parsed into one item at that position, which then "
        "passes the resolver, the number, kind, type and match checks exactly once each, kinds before types before matches, every "
        "stage with the scope and definitions of all earlier items (in their final version) and with the item's own in the version "
        "the stage needs, and is appended to the unit; a function that reads a unit's items has compiled it (to the end, unless it "
        "answers for a position) on every path before")
ASSUMPTIONS = ["a stage is the function that takes the item and reaches the construct it checks"]

POS = "ticc_syntax::pos::Pos"
NAMES = {"resolve": "resolver", "number": "check of number literals", "kind": "kind check", "type": "type check", "match": "check of matches"}


class K:
    def __init__(self, prog):
        self.prog = prog
        self.k14 = K14(prog)
        self.k11 = K11(prog)
        own = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and not f.derived]
        self.own = own
        self.item_fns = {f.id for f in own if any(prog.tstr(x) == "&mut " + ITEM for x in f.locals[1:f.nargs + 1])}
        parse = [f for f in own if prog.tstr(f.locals[0]) == ITEM and f.nargs == 2 and prog.tstr(f.locals[2]) == POS]
        if len(parse) != 1:
            raise Anchor("parser of one item, found %d" % len(parse))
        self.parse = parse[0]
        self.compile = set(self.k14.compile)
        self.drive = [f for f in own if f.id in self.compile and f.nargs == 2]
        self.whole = [f for f in own if f.id in self.compile and f.nargs == 1 and self.drive and
                      self.drive[0].id in prog.cg().get(f.id, ())]
        if len(self.drive) != 1 or not self.whole:
            raise Anchor("compilation loop of a unit")
        self.drive = self.drive[0]
        casts = {}
        for f in prog.fns.values():
            if f.crate == "ticc" and (f.trait_item or "").endswith("AstNode::cast"):
                casts[f.id] = prog.tstr(f.locals[0]).split("node::")[-1].split("<")[0]
        self.casts = casts
        self.scope = [d for d, a in prog.adts.items() if d.startswith("ticc::") and a["kind"] == "struct" and any(
            prog.tstr(f["t"]).split("<'")[0].startswith("core::option::Option<&" + d) for f in a["variants"][0]["f"])]
        if len(self.scope) != 1:
            raise Anchor("scope")
        self.scope = self.scope[0]
        self.role = {}
        for f in self.item_fns:
            r = self.roles(f, set())
            if len(r) == 1 and not any(prog.tstr(x).startswith("&mut") and prog.tstr(x) != "&mut " + ITEM
                                       for x in prog.fns[f].locals[1:prog.fns[f].nargs + 1]):
                self.role[f] = min(r)
        self.adders = {f.id for f in self.k14.adders}
        self.scopers = {f.id for f in own if f.nargs >= 2 and prog.adt_of(f.locals[1]) == self.scope and
                        prog.tstr(f.locals[1]).startswith("&mut") and any(prog.adt_of(x) == ITEM for x in f.locals[2:f.nargs + 1])}
        if not self.adders or not self.scopers:
            raise Anchor("functions that make an item's definitions known")

    def edges(self, f):
        """(workspace functions, kinds of syntax node cast to): direct calls and functions mentioned only, no dispatch"""
        prog = self.prog
        out, casts = set(), set()

        def fn(d, a):
            if d in prog.fns and not d.endswith("AstNode::cast"):
                out.add(d)
            if d in self.casts:
                casts.add(self.casts[d])
            elif d.endswith("AstNode::cast") and a:
                casts.add(prog.tstr(a[0]).split("node::")[-1].split("<")[0])

        def operand(o):
            if "k" in o:
                ty = prog.types[o["k"]["t"]]
                if ty["k"] in ("fndef", "closure"):
                    fn(ty["d"], ty.get("a"))
        for b in f.reach([0]):
            blk = f.blocks[b]
            for s in blk["s"]:
                rv = s[1]
                if rv[0] == "agg" and rv[1].get("k") == "closure":
                    out.add(rv[1]["d"])
                for o in rv_operands(rv):
                    operand(o)
            t = blk["t"]
            if t["k"] == "call":
                for o in t["args"]:
                    operand(o)
                c = t["f"]
                fn(c.get("r") or c.get("d") or "", c.get("a"))
                for a in c.get("a") or ():
                    ty = prog.types[a] if isinstance(a, int) else {"k": "?"}
                    if ty["k"] in ("fndef", "closure"):
                        fn(ty["d"], ty.get("a"))
        return out, casts

    def roles(self, fid, seen):
        """what the stages reached from here check"""
        if fid in seen:
            return set()
        seen.add(fid)
        prog = self.prog
        got, q, r, own = {fid}, [fid], set(), set()
        while q:
            out, casts = self.edges(prog.fns[q.pop()])
            own |= casts
            for y in out:
                if y in got:
                    continue
                got.add(y)
                if y in self.item_fns:
                    r |= self.roles(y, seen)
                elif y in prog.fns and prog.fns[y].crate == "ticc" and y not in self.compile:
                    q.append(y)
        f = prog.fns[fid]
        if any(prog.adt_of(x) == self.scope for x in f.locals[1:f.nargs + 1]):
            r.add("resolve")
        elif self.k11.unify.id in got:
            r.add("type")
        else:
            if "MatchExpr" in own:
                r.add("match")
            if "NumberExpr" in own:
                r.add("number")
            if "NamedType" in own:
                r.add("kind")
        return r


def chain(t, fns):
    """[(position, function, arguments..)] of the versions of a value, first to last, and what it started from"""
    out = []
    while t[0] == "after" and t[2] in fns:
        out.append((t[1], t[2]))
        t = t[3]
    return list(reversed(out)), t


def judge_loop(prog, rep, k):
    f = k.drive
    where = f.loc()
    stages = set(k.role)
    it = World(prog, stages | k.adders | k.scopers | {k.parse.id})
    outs = it.start(f, [("sym", "u"), ("sym", "n")])
    roots = {("sym", "u"): ("u", f.locals[1])}
    states = [(s, True) for s, _ in outs] + [(s, False) for s, g, b in it.loops if g is f or True]
    rep.ob(bool(outs), f.id, "does not return", where)
    for st, _ in outs:
        rep.ob(any(reached(prog, x, v, roots) for x, v in st.facts.items()), "%s: end" % f.id,
               "is not when the items reach the position asked for or the end of the text", where)
    n = 0
    seen = set()
    for st, final in states:
        sig = tuple((e[0], show(prog, e[1]) if isinstance(e[1], tuple) else e[1]) for e in st.trace if e[0] in ("do", "iter", "noiter", "call"))
        if (sig, final) in seen:
            continue
        seen.add((sig, final))
        tr = st.trace
        parses = [i for i, e in enumerate(tr) if e[0] == "do" and e[1] == k.parse.id]
        earlier = [e for e in tr[:parses[0] if parses else len(tr)] if e[0] == "iter" and path(prog, e[1], roots) == ("u", "items")]
        before = {"scope": [("elem",)] if earlier else [], "defs": [("elem",)] if earlier else []}
        past = []           # final versions of the items of this run
        for j, i in enumerate(parses):
            end = parses[j + 1] if j + 1 < len(parses) else len(tr)
            seg = [(p, tr[p]) for p in range(i, end)]
            root = ("ret", i, k.parse.id) + tuple(tr[i][2])
            complete = j + 1 < len(parses) or final
            done = {}
            version = None
            src, pos = tr[i][2]
            n += 1
            rep.ob(path_of_tail(prog, src, roots) and tail_pos(prog, src, pos), "%s: parsed text" % f.id,
                   "is not the text after the last item, at its position", where)
            for p, e in seg:
                if e[0] != "do" or e[1] not in stages:
                    continue
                role = k.role[e[1]]
                g = prog.fns[e[1]]
                items = [a for a, x in zip(e[2], g.locals[1:]) if prog.tstr(x) == "&mut " + ITEM]
                ch, base = chain(items[0], stages)
                rep.ob(base == root, "%s: %s" % (f.id, NAMES[role]), "gets something other than the parsed item", where)
                had = [k.role[x] for _, x in ch]
                rep.ob(role not in had, "%s: %s" % (f.id, NAMES[role]), "is done twice", where)
                if role != "number":
                    rep.ob("resolve" in had or role == "resolve", "%s: %s" % (f.id, NAMES[role]), "is done before names are resolved", where)
                if role in ("type", "match"):
                    rep.ob("kind" in had, "%s: %s" % (f.id, NAMES[role]), "is done before kinds are checked", where)
                if role == "match":
                    rep.ob("type" in had, "%s: %s" % (f.id, NAMES[role]), "is done before types are checked", where)
                rep.ob([x for x in ch] == [(q, x) for q, x in sorted(done.values())], "%s: %s" % (f.id, NAMES[role]),
                       "gets a version of the item without what earlier stages did", where)
                for a, x in zip(e[2], g.locals[1:]):
                    d = prog.adt_of(x)
                    if d == k.scope:
                        got = known(prog, k, st, a, k.scopers, roots)
                        rep.ob(ok_known(got, earlier, past, None), "%s: names known to the %s" % (f.id, NAMES[role]),
                               "are not those of the earlier items", where)
                    elif k.k14.defmap(d) and d != ITEM:
                        got = known(prog, k, st, a, k.adders, roots)
                        rep.ob(ok_known(got, earlier, past, (root, "kind" if role == "type" else "resolve")),
                               "%s: definitions known to the %s" % (f.id, NAMES[role]),
                               "are not those of the earlier items and the item itself as it stands", where)
                    elif prog.tstr(x) == "ticc::ModuleKey":
                        rep.ob(path(prog, a, roots) == ("u", "key"), "%s: module key" % f.id, "is not the unit's", where)
                    elif "ModuleResolver" in prog.tstr(x):
                        rep.ob(path(prog, a, roots) == ("u", "modules"), "%s: modules" % f.id, "are not the unit's", where)
                done[role] = (p, e[1])
                version = ("after", p, e[1], items[0])
            if complete:
                for role, name in NAMES.items():
                    rep.ob(role in done, "%s: %s" % (f.id, name), "is not done for every item", where)
                push = [e for p, e in seg if e[0] == "call" and e[1].endswith("::push") and path(prog, e[2][0], roots) == ("u", "items")]
                rep.ob(len(push) == 1 and push[0][2][1] == version, "%s: compiled item" % f.id,
                       "is not added to the unit once, after all stages", where)
            past.append((root, version))
    return n


def ok_known(got, earlier, past, current):
    """earlier items by the generic element, then each item of this run in its final version, then the current one"""
    base, adds = got
    if base != "new":
        return False
    want = (["old"] if earlier else [])
    roots = [r for r, _ in past]
    seq = []
    latest = {}
    for what, roles in adds:
        if what == "old":
            seq.append("old")
        else:
            latest[what] = roles
    if earlier and "old" not in seq:
        return False
    for r, v in past:
        if r not in latest or "type" not in latest[r]:
            return False
    extra = set(latest) - set(roots)
    if current is None:
        return not extra
    r, role = current
    return extra <= {r} and r in latest and role in latest[r]


def known(prog, k, st, a, fns, roots):
    """(what a set of names started as, [(item, stages it had passed)])"""
    ch, base = chain(a, fns)
    adds = []
    final = {"type"} | set(NAMES)
    for p, x in ch:
        args = st.trace[p][2]
        g = prog.fns[x]
        item = [y for y, t in zip(args, g.locals[1:]) if prog.adt_of(t) == ITEM][0]
        flags = [y for y, t in zip(args, g.locals[1:]) if prog.tstr(t) == "bool"]
        if any(y != ("c", 0) for y in flags):
            adds.append((("flag",), set()))
        if path(prog, item, roots) == ("u", "items", "*"):
            adds.append(("old", None))
            continue
        if item[0] == "proj" and any(y[:2] == ("call", "last") and path(prog, y[2], roots) == ("u", "items") for y in terms(item)):
            # the item just added to the unit
            push = [e for e in st.trace[:p] if e[0] == "call" and e[1].endswith("::push") and path(prog, e[2][0], roots) == ("u", "items")]
            item = push[-1][2][1] if push else item
        c, b = chain(item, set(k.role))
        adds.append((b, {k.role[y] for _, y in c}))
    return ("new" if not any(y[0] in ("sym", "after") for y in terms(base)) else base), adds


def core(t):
    while t[0] in ("un", "cast") or t[0] == "adt" and len(t[3]) == 1:
        t = t[-1] if t[0] != "adt" else t[3][0]
    return t


def reached(prog, x, v, roots):
    """the fact says that the items reach the position or the end of the text"""
    if x[0] != "bin" or v not in (0, 1) or len(x) != 4:
        return False
    op = x[1]
    if op == "Ne":
        op, v = "Eq", 1 - v
    if v == 0:
        op = {"Lt": "Ge", "Gt": "Le", "Le": "Gt", "Ge": "Lt"}.get(op)
    a, b = core(x[2]), core(x[3])

    def length(t):
        if t == ("c", 0):
            return True
        r = [y for y in terms(t) if y[:2] == ("call", "last")]
        return t[0] == "proj" and bool(r) and path(prog, r[0][2], roots) == ("u", "items")

    def text(t):
        return t[:2] == ("call", "len") and path(prog, t[2], roots) == ("u", "src")
    if op in ("Le", "Lt"):
        op, a, b = {"Le": "Ge", "Lt": "Gt"}[op], b, a
    if op == "Eq" and text(a):
        a, b = b, a
    return length(a) and (op in ("Ge", "Gt") and (b == ("sym", "n") or text(b)) or op == "Eq" and (text(b) or b == ("sym", "n")))


def path_of_tail(prog, src, roots):
    return src[:2] == ("call", "index") and path(prog, src[2], roots) == ("u", "src") and src[3][0] == "adt" and len(src[3][3]) == 1 and \
        src[3][1].endswith("RangeFrom") or src[:2] == ("call", "get")


def tail_pos(prog, src, pos):
    """the position is where the text starts, read as a position"""
    if src[:2] != ("call", "index"):
        return True
    start = src[3][3][0]
    return core(pos) == core(start)


def judge_readers(prog, rep, k):
    """a function that reads the items of a unit it may change has compiled it before"""
    ui = [i for i, x in enumerate(prog.adts[UNIT]["variants"][0]["f"]) if "ir::Item" in prog.tstr(x["t"])]
    if len(ui) != 1:
        raise Anchor("items of a unit")
    name = prog.adts[UNIT]["variants"][0]["f"][ui[0]]["n"]

    def reads_here(f):
        """blocks that touch the items"""
        out = set()
        for b in f.reach([0]):
            if name in fields(f.blocks[b], prog):
                out.add(b)
        return out

    unitary = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and
               any(prog.adt_of(x) == UNIT for x in f.locals[1:f.nargs + 1])]
    mut = [f for f in unitary if any(prog.tstr(x) in ("&mut " + UNIT, UNIT) for x in f.locals[1:f.nargs + 1])]
    shared = {f.id for f in unitary} - {f.id for f in mut}
    inner = set(k.compile)
    # functions (and closures) that read items, directly or through a shared reference
    direct = {f.id for f in prog.fns.values() if f.crate == "ticc" and reads_here(f)}
    g = prog.cg()
    readers = set()
    change = True
    while change:
        change = False
        for f in prog.fns.values():
            if f.id in readers or f.crate != "ticc" or f in mut:
                continue
            if f.id in direct or any(y in readers for y in g.get(f.id, ())):
                readers.add(f.id)
                change = True
    # only what works on the unit handed to it (its parameters, or captures of a function that has one)
    comp = {"any": {k.drive.id} | {x.id for x in k.whole}, "end": {x.id for x in k.whole}}
    change = True
    while change:
        change = False
        for f in mut:
            for kind in comp:
                if f.id not in comp[kind] and passes(prog, f, comp[kind], f.returns()):
                    comp[kind].add(f.id)
                    change = True
    n = 0
    calls = {f.id: [(b, {x.id for x in prog.targets(t)}) for b, t in f.calls()] for f in mut}
    where = {}
    for f in mut:
        bad = reads_here(f)
        for b, xs in calls[f.id]:
            if xs & readers & shared:
                bad.add(b)
        for b in f.reach([0]):
            for s in f.blocks[b]["s"]:
                rv = s[1]
                if rv[0] == "agg" and rv[1].get("k") == "closure" and rv[1]["d"] in readers:
                    bad.add(b)
        where[f.id] = bad

    def positional(f):
        return any(prog.tstr(x) in (POS, "usize", "u32") for x in f.locals[1:f.nargs + 1])
    unmet = set()
    change = True
    while change:
        change = False
        for f in mut:
            if f.id in inner or f.id in unmet:
                continue
            bad = where[f.id] | {b for b, xs in calls[f.id] if xs & unmet}
            if bad and not passes(prog, f, comp["any" if positional(f) else "end"], bad):
                unmet.add(f.id)
                change = True
    rcg = prog.rcg()
    for f in mut:
        if f.id in inner or not where[f.id] and f.id not in unmet:
            continue
        n += 1
        callers = [prog.fns[x] for x in rcg.get(f.id, ()) if x in prog.fns and x != f.id]
        entry = not callers or any(x.crate != "ticc" for x in callers)
        rep.ob(f.id not in unmet or not entry, "%s: reads items" % f.id,
               "of a unit that has not been compiled%s" % ("" if positional(f) else " to its end"), f.loc())
        if f.id in unmet:
            continue
        if positional(f):
            it = World(prog, set(prog.fns) - {f.id})
            args = [("sym", "a%d" % i) for i in range(1, f.nargs + 1)]
            pos = [a for a, x in zip(args, f.locals[1:]) if prog.tstr(x) in (POS, "usize", "u32")]
            for st, _ in it.start(f, args):
                first = [e for e in st.trace if e[0] == "do" and e[1] in comp["any"]]
                rep.ob(first and (first[0][1] in comp["end"] or any(x in pos for a in first[0][2] for x in terms(a))),
                       "%s: compiled part" % f.id, "does not reach the position", f.loc())
                break
    for w in k.whole:
        it = World(prog, {k.drive.id})
        for st, _ in it.start(w, [("sym", "u")]):
            calls = [e for e in st.trace if e[0] == "do" and e[1] == k.drive.id]
            rep.ob(len(calls) == 1 and calls[0][2][1][:2] == ("call", "len") and
                   path(prog, calls[0][2][1][2], {("sym", "u"): ("u", w.locals[1])}) == ("u", "src"),
                   "%s: extent" % w.id, "is not the whole text", w.loc())
    return n


def passes(prog, f, fns, targets):
    """every path from the entry to the targets goes through a call of one of fns first"""
    gates = {b for b, t in f.calls() if any(x.id in fns for x in prog.targets(t))}
    reach = f.reach([0], gates)
    return not (set(targets) & (set(reach) - gates))


def fields(blk, prog):
    """names of the fields of a unit that a block touches"""
    out = set()

    def place(p):
        for e in p[1:]:
            if isinstance(e, dict) and e.get("o") == UNIT:
                out.add(e["n"])
    for s in blk["s"]:
        place(s[0])
        for p in rv_places(s[1]):
            place(p)
    t = blk["t"]
    if t["k"] == "call":
        for a in t["args"]:
            if op_place(a) is not None:
                place(op_place(a))
        place(t["dst"])
    return out


def run(prog, rep):
    k = K(prog)
    rep.floor("stages", len(set(k.role.values())), 5)
    rep.floor("item compilations on the paths", judge_loop(prog, rep, k), 4)
    rep.floor("functions that read items", judge_readers(prog, rep, k), 6)
