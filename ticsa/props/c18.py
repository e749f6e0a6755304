"""C18: completions are the names visible at the position, of the kind that is expected there."""
import re
from ..mir import Anchor
from ..front import State, show, part, project, OPTION, NONE
from ..world import World, SynWorld, path
from . import c28, c19
from .c04 import terms
from .c09 import K as K9, ITEM, UNIT, POS
from .c28 import E, present, known

RULE = ("every use of a name the resolver looks up is announced to the sink, on every path, with its node, its scope, and a usage whose "
        "names are those of the table (or the namespace of the module) it is looked up in; the completion sink answers a name whose "
        "extent holds the position with exactly the modules and that table of every scope outwards, or the module's exports in that "
        "namespace, and no other name; a query resolves the item at the position, with an identifier put in at the position, in the "
        "scope of exactly the items before it")
ASSUMPTIONS = ["the tables of a scope hold the names visible there (C28)"]


def sinks(prog, k):
    """implementations of the method that announces a use: (fn, usage enum, namespace enum)"""
    out = []
    for f in prog.fns.values():
        if f.crate != "ticc" or f.kind != "fn" or f.derived or not f.trait_item or f.nargs < 4:
            continue
        ts = [prog.tstr(x) for x in f.locals[1:f.nargs + 1]]
        if not any(t.split("<")[0].endswith("node::Name") for t in ts) or not any(prog.adt_of(x) == k.scope for x in f.locals[1:]):
            continue
        en = [prog.adt_of(x) for x in f.locals[1:f.nargs + 1]]
        en = [d for d in en if d and d.startswith("ticc::") and prog.adts[d]["kind"] == "enum"]
        plain = [d for d in en if all(not v["f"] for v in prog.adts[d]["variants"])]
        rich = [d for d in en if d not in plain]
        if len(plain) == 1 and len(rich) == 1:
            out.append((f, plain[0], rich[0]))
    if not out:
        raise Anchor("sink of the uses of names")
    return out


def peel(t):
    """a list without the library's sorting and removal of duplicates: (list, [names of those])"""
    did = []
    while t[0] == "call" and t[1] in ("after sort_by", "after sort", "after sort_unstable_by", "after sort_by_key", "after dedup_by",
                                      "after dedup", "after dedup_by_key", "after sort_unstable", "after sort_by_cached_key",
                                      "after sort_unstable_by_key"):
        did.append((t[1].split()[1], t[3:]))
        t = t[2]
    return t, list(reversed(did))


def pushed(t):
    out = []
    while t[0] == "call" and t[1] == "push" and len(t) == 4:
        out.append(t[3])
        t = t[2]
    if t[0] == "arr":
        return list(t[1]) + out, ("vecnew",)
    return out, t


def judge_sink(prog, rep, k, f, usage, nsp):
    """usage variant -> map of the scope offered, usage variant -> namespace of exports offered"""
    where = f.loc()
    self_t = prog.adt_of(f.locals[1])
    fs = prog.adts[self_t]["variants"][0]["f"]
    pi = [i for i, x in enumerate(fs) if prog.tstr(x["t"]) == POS]
    ri = [i for i, x in enumerate(fs) if prog.tstr(x["t"]).startswith(OPTION + "<alloc::vec::Vec<")]
    if len(pi) != 1 or len(ri) != 1:
        raise Anchor("fields of the completion sink")
    pi, ri = pi[0], ri[0]
    names = {}
    st0 = State()
    root = ("loc", "self")
    old = ("sym", "old")
    vals = [("sym", "f%d" % i) for i in range(len(fs))]
    vals[pi], vals[ri] = ("sym", "pos"), old
    st0.env[root] = ("adt", self_t, 0, tuple(vals))
    args = [("ptr", root, ())]
    roots = {}
    at = {}
    for i in range(2, f.nargs + 1):
        d = prog.adt_of(f.locals[i])
        s = prog.tstr(f.locals[i])
        n = "scope" if d == k.scope else "usage" if d == usage else "ns" if d == nsp else "name" if "node::Name" in s else "a%d" % i
        args.append(("sym", n))
        roots[("sym", n)] = (n, f.locals[i])
    it = SynWorld(prog)
    it.loop_bound = 2
    fsc = prog.adts[k.scope]["variants"][0]["f"]
    pn = fsc[k.parent]["n"]
    mapn = {fsc[i]["n"]: i for i in k.maps}
    vs, ns = prog.adts[usage]["variants"], prog.adts[nsp]["variants"]
    none = [i for i, v in enumerate(ns) if not v["f"]]
    modv = [i for i, v in enumerate(ns) if v["f"]]
    if len(modv) != 1:
        raise Anchor("kinds of namespaces")
    table, exported = {}, {}
    count = 0
    both = set()
    deepest = 0
    for st, _ in it.start(f, args, st0):
        its = {e[1] for e in st.trace if e[0] == "iter"}
        if its & {e[1] for e in st.trace if e[0] == "noiter"}:
            continue        # a collection that had elements is not empty
        count += 1
        end = it.deep(st, project(it.load(st, root, ()), (ri,)))
        rel = set()
        for x, v in st.facts.items():
            if x[0] == "bin" and x[1] in c19.FLIP and isinstance(v, int):
                a, b, op = x[2], x[3], x[1]
                if a == ("sym", "pos"):
                    a, b, op = b, a, c19.FLIP[op]
                if b == ("sym", "pos") and a[0] == "acc" and a[1] in ("start", "end") and any(y == ("sym", "name") for y in terms(a)):
                    rel.add((a[1], op if v else c19.NEG[op]))
        if end == old:
            rep.ob(bool(rel & {("start", "Gt"), ("end", "Lt")}), f.id, "gives no answer for a name that holds the position", where)
            both.add("outside")
            continue
        rep.ob(rel == {("start", "Le"), ("end", "Ge")}, f.id, "answers for a name that does not hold the position", where)
        if end[0] != "adt" or end[1] != OPTION or end[2] != 1:
            rep.ob(end[0] != "adt", f.id, "takes back an answer", where)
            rep.ob(end[0] == "adt", f.id, "gives an answer that is not understood", where)
            continue
        lst, did = peel(end[3][0])
        els, base = pushed(lst)
        rep.ob(base in (("vecnew",), ("arr", ())), f.id, "adds something else to the answer", where)
        for n, a in did:
            if n.startswith("dedup") and a and a[0][0] == "clo":
                judge_dedup(prog, rep, it, f, st, a[0], n, els)
            elif n.startswith("dedup"):
                rep.ob(n == "dedup", f.id, "drops some names", where)
        got = []
        for e in els:
            ps = [path(prog, y, roots) for y in terms(e)]
            got.append(max((p for p in ps if p and (p[0] == "scope" or p[0] == "ns")), key=len, default=None))
        nf = st.facts.get(("call", "discr", ("sym", "ns")))
        uf = st.facts.get(("call", "discr", ("sym", "usage")))
        # the scopes walked
        depth = 0
        chain = ("scope",)
        chains = [chain]
        for x, v in st.facts.items():
            if x[:2] == ("call", "discr") and path(prog, x[2], roots) and v == 1:
                p = path(prog, x[2], roots)
                if p == chain + (pn,):
                    chain = p + ("Some.0",)
                    chains.append(chain)
        deepest = max(deepest, len(chains))
        if isinstance(nf, int) and nf == modv[0]:
            # the module's exports
            if not isinstance(uf, int):
                us = [i for i in range(len(vs)) if not (isinstance(uf, (set, frozenset, tuple)) and i in uf)]
            else:
                us = [uf]
            eq = None
            for x, v in st.facts.items():
                if x[0] == "bin" and x[1] in ("Eq", "Ne") and isinstance(v, int):
                    a, b = x[2], x[3]
                    if a[0] == "c":
                        a, b = b, a
                    if b[0] == "c" and a[:2] == ("call", "discr") and key_ns(prog, path(prog, a[2], roots)):
                        if (x[1] == "Eq") == bool(v):
                            eq = (b[1], True)
                        else:
                            eq = (b[1], False)
                elif x[:2] == ("call", "discr") and key_ns(prog, path(prog, x[2], roots)):
                    eq = (v, True) if isinstance(v, int) else (tuple(v), False)
            seen = any(e[0] == "iter" and (path(prog, e[1], roots) or ("",))[-1] == "exports" for e in st.trace)
            if not seen:
                rep.ob(not els and any(e[0] == "noiter" and (path(prog, e[1], roots) or ("",))[-1] == "exports" for e in st.trace),
                       f.id + ": module", "does not offer the exports of the module", where)
                continue
            if eq is None:
                rep.ob(False, f.id + ": module", "does not go by the namespace of the exports", where)
                continue
            good = all(p and p[0] == "ns" and "exports" in p for p in got)
            rep.ob(good, f.id + ": module", "offers something that is not exported by it", where)
            for u in us:
                if eq[1]:
                    exported.setdefault(u, {}).setdefault(eq[0], set()).add(bool(els))
                elif els:
                    exported.setdefault(u, {})[("other", eq[0])] = {True}
        elif nf is None or isinstance(nf, int) and ns[nf]["n"] == none_name(prog, nsp):
            rep.ob(nf is not None, f.id, "does not go by the namespace of the name", where)
            if not isinstance(uf, int):
                us = [i for i in range(len(vs)) if not (isinstance(uf, (set, frozenset, tuple)) and i in uf)]
                rep.ob(len(us) == 1, f.id, "does not go by the usage of the name", where)
            else:
                us = [uf]
            bychain = {}
            for p in got:
                if p is None or p[-1] != "*":
                    rep.ob(False, f.id, "offers something else than the names in scope", where)
                    continue
                bychain.setdefault(p[:-2], set()).add(p[-2])
            empties = {path(prog, e[1], roots) for e in st.trace if e[0] == "noiter"}
            full = set().union(*bychain.values()) if bychain else set()
            rep.ob(set(bychain) <= set(chains) and all(
                bychain.get(c, set()) | {m for m in full if c + (m,) in empties} == full for c in chains), f.id + ": scopes",
                "does not offer the names of every enclosing scope alike", where)
            for u in us:
                if not any(c + (m,) in empties for c in chains for m in mapn):
                    table.setdefault(u, []).append(frozenset(full))
            both.add("names")
        else:
            rep.ob(not els, f.id + ": unknown module", "offers names of something else", where)
            both.add("unknown")
    mods = None
    rep.ob({"outside", "names", "unknown"} <= both, f.id, "handles only %s" % sorted(both), where)
    rep.ob(deepest >= 3 or deepest == 2, f.id, "offers only the names of the innermost scope", where)
    return table, exported, mapn, count


def none_name(prog, nsp):
    # the variant without a payload that is announced for names without a module: the first one
    return [v["n"] for v in prog.adts[nsp]["variants"] if not v["f"]][0]


def key_ns(prog, p):
    return bool(p) and "exports" in p and p[-1] == "namespace"


def judge_dedup(prog, rep, it, f, st, clo, n, els):
    a, b = ("sym", "d1"), ("sym", "d2")
    d = [x for x in els if x[0] == "adt"]
    if not d:
        return
    shape = d[0]
    mk = lambda s: ("adt", shape[1], shape[2], tuple(("sym", "%s%d" % (s, i)) for i in range(len(shape[3]))))
    same = []
    for s, r in it.apply(clo, [mk("x"), mk("y")] if n == "dedup_by" else [mk("x")], st.copy(), 1):
        r = it.deep(s, r)
        if n == "dedup_by":
            good = r[0] == "bin" and r[1] == "Eq" and {r[2], r[3]} == {("sym", "x0"), ("sym", "y0")} or \
                any(x[0] == "bin" and x[1] == "Eq" and {x[2], x[3]} == {("sym", "x0"), ("sym", "y0")} and ("c", v) == r
                    for x, v in s.facts.items())
        else:
            good = any(y == ("sym", "x0") for y in terms(r))
        same.append(good)
    rep.ob(bool(same) and all(same), f.id, "drops names that differ", f.loc())


def judge_query(prog, rep, k28, k9, sink):
    out = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and f.nargs == 2 and prog.adt_of(f.locals[1]) == UNIT and
           prog.adt_of(f.locals[2]) == POS and "Completion>" in prog.tstr(f.locals[0])]
    inner = {y for f in out for y in prog.reachable([f.id]) if y != f.id}
    out = [f for f in out if f.id not in inner]
    if len(out) != 1:
        raise Anchor("completion query")
    f = out[0]
    self_t = prog.adt_of(sink.locals[1])
    # the resolver: takes the scope and the sink
    tid = [i for i, t in enumerate(prog.types) if t["k"] == "adt" and t["d"] == self_t]
    res = [g for g in prog.fns.values() if g.crate == "ticc" and g.kind == "fn" and g.id in prog.reachable([f.id]) and
           any(prog.adt_of(x) == k28.scope for x in g.locals[1:g.nargs + 1]) and k28.item.id in prog.reachable([g.id]) and
           any(prog.tstr(x).startswith("&mut") and prog.adt_of(x) != k28.scope for x in g.locals[1:g.nargs + 1])]
    cand, res, todo, met = {g.id for g in res}, set(), [f.id], {f.id}
    while todo:
        for y in prog.cg().get(todo.pop(), ()):
            if y in cand:
                res.add(y)
            elif y not in met and y in prog.fns:
                met.add(y)
                todo.append(y)
    if not res:
        raise Anchor("resolver called by the completion query")
    closed = res | {k9.parse.id} | {a.id for a in k28.adders}
    # a helper that pairs parse and resolve is entered
    n = 0
    seen = set()
    for view, v, it in c19.paths(prog, k9, f, closed):
        st = view.st
        n += 1
        item = ("u", "items", "*")
        h = view.holds(item + ("span",)) if view.looked(("u", "items")) else False
        did = [e for e in st.trace if e[0] == "do" and e[1] in res]
        if h is False:
            rep.ob(v == NONE and not did, f.id, "answers for a position outside of the items", f.loc())
            seen.add("outside")
            continue
        if h != True:
            rep.ob(False, f.id, "does not look for the item that holds the position", f.loc())
            continue
        if not did:
            # no text there
            rep.ob(v == NONE and any(x[:2] == ("call", "discr") and any(y[:2] == ("call", "get") for y in terms(x[2])) for x in st.facts),
                   f.id, "does not resolve the item at the position", f.loc())
            continue
        seen.add("inside")
        rep.ob(len(did) == 1, f.id, "resolves the item more than once", f.loc())
        e = did[0]
        g = prog.fns[e[1]]
        i = st.trace.index(e)
        after = ("after", i, g.id)
        rep.ob(v[0] == "proj" and v[1][:3] == after, f.id, "does not answer with what the name was completed to", f.loc())
        scope = key = mods = None
        snk = tree = None
        for a, ty in zip(e[2], g.locals[1:]):
            d, s = prog.adt_of(ty), prog.tstr(ty)
            if d == k28.scope:
                scope = a
            elif view.path(a) == ("u", "key"):
                key = True
            elif view.path(a) == ("u", "modules"):
                mods = True
            elif a[0] == "adt" and a[1] == self_t:
                snk = a
            elif any(y[0] == "ret" and y[2] == k9.parse.id for y in terms(a)):
                tree = a
        rep.ob(bool(key and mods), f.id, "is resolved in another module than the unit's", f.loc())
        rep.ob(snk is not None and [view.path(x) for x in snk[3]].count(("pos",)) == 1 and NONE in snk[3], f.id,
               "does not complete the name at the position", f.loc())
        # scope: empty, with the items before this one
        if scope is None:
            rep.ob(False, f.id + ": scope", "is not that of the items before", f.loc())
            continue
        adders = {a.id for a in k28.adders}
        base = scope
        vers = []
        while base[0] == "after" and base[2] in adders:
            vers.append(base)
            base = base[3]
        rep.ob(base[0] == "adt" and base[1] == k28.scope and base[3][k28.parent] == NONE and
               all(x[0] == "map" for j, x in enumerate(base[3]) if j != k28.parent), f.id + ": scope", "starts with some names", f.loc())
        fresh = {x for x in base[3]}
        before = False
        for w in vers:
            a = st.trace[w[1]]
            els = [x for x, ty in zip(a[2], prog.fns[a[1]].locals[1:]) if prog.adt_of(ty) == ITEM]
            ok = len(els) == 1 and els[0][0] == "elem" and prefix(view, els[0][1])
            rep.ob(ok, f.id + ": scope", "has the names of other items than those before", f.loc())
            rep.ob(all(x == ("c", 0) for x, ty in zip(a[2], prog.fns[a[1]].locals[1:]) if prog.tstr(ty) == "bool"), f.id + ": scope", "is that of an importer", f.loc())
            before = before or ok
        if before:
            seen.add("scope")
        if not vers:
            rep.ob(any(x[0] == "noiter" and prefix(view, x[1]) for x in st.trace), f.id + ": scope", "lacks the items before", f.loc())
        # the text
        ret = [y for y in terms(tree) if y[0] == "ret" and y[2] == k9.parse.id] if tree is not None else []
        if not ret:
            rep.ob(False, f.id + ": text", "is not the item with a name put in at the position", f.loc())
            continue
        text, pos = ret[0][3:5]
        rep.ob(view.path(pos) == item + ("span", "start"), f.id + ": text", "is parsed as if it were somewhere else", f.loc())
        bits = pieces(text)
        def cut(x, a, b):
            if x[0] == "ok":
                x = x[1]
            while x[0] == "proj":
                x = x[1]
            if x[0] != "call" or x[1] not in ("get", "index") or len(x) != 4 or x[3][0] != "adt" or len(x[3][3]) != 2:
                return False
            return view.path(x[2]) == ("u", "src") and [view.path(y) for y in x[3][3]] == [a, b]
        ok = len(bits) == 3 and cut(bits[0], item + ("span", "start"), ("pos",)) and \
            bits[1][0] == "s" and re.fullmatch("[a-z][a-z0-9_]*", bits[1][1] if isinstance(bits[1][1], str) else "") and \
            cut(bits[2], ("pos",), item + ("span", "end"))
        rep.ob(bool(ok), f.id + ": text", "is not the item with a name put in at the position", f.loc())
    rep.ob({"outside", "inside", "scope"} <= seen, f.id, "handles only %s" % sorted(seen), f.loc())
    return n


def prefix(view, t):
    """the items before the one that holds the position"""
    items = ("u", "items")
    if t[0] == "adt" or t[0] != "call" and t[0] != "proj":
        return False
    if t[0] == "proj" and t[1][:2] == ("call", "split_at"):
        t = t[1]
    if t[0] == "call" and t[1] == "iter" and len(t) == 3:
        return prefix(view, t[2])
    if t[0] != "call" or t[1] not in ("index", "take", "split_at", "get") or len(t) < 4:
        return False
    n = t[3]
    if n[0] == "adt" and n[1].split("::")[-1] == "RangeTo":
        n = n[3][0]
    elif n[0] == "adt" and n[1].split("::")[-1] == "Range" and n[3][0] == ("c", 0):
        n = n[3][1]
    return view.path(t[2]) == items and n[0] == "index" and view.path(n[1]) == items


def pieces(t):
    """a string as the list of what it is put together from"""
    if t[0] == "call" and t[1] in ("push_str", "add", "after push_str") and len(t) == 4:
        return pieces(t[2]) + pieces(t[3])
    if t[0] == "call" and t[1] in ("concat", "join") and t[2][0] == "arr":
        return [y for x in t[2][1] for y in pieces(x)]
    if t[0] == "call" and t[1] in ("must_use", "format", "to_owned", "to_string", "from", "clone", "as_ref", "deref", "as_str", "new_display") \
            and len(t) == 3:
        return pieces(t[2])
    if t[0] == "call" and t[1] == "new" and len(t) == 4 and t[3][0] == "arr":
        lit = t[2][1] if t[2][0] == "s" and isinstance(t[2][1], str) else "?"
        if any(c.isalnum() and ord(c) < 128 for c in lit):
            return [("sym", "?")]
        return [y for x in t[3][1] for y in pieces(x)]
    if t in (("s", ""), ("vecnew",)) or t[0] == "call" and t[1] in ("new", "strnew", "with_capacity") and len(t) <= 3:
        return []
    return [t]


def run(prog, rep):
    k = c28.K(prog)
    quiet = Quiet()
    c28.judge_lookups(prog, quiet, k)
    c28.judge_adder(prog, quiet, k)
    every = sinks(prog, k)
    done = [x for x in every if any(prog.tstr(f["t"]) == POS for f in prog.adts[prog.adt_of(x[0].locals[1])]["variants"][0]["f"])]
    if len(done) != 1:
        raise Anchor("completion sink")
    f, usage, nsp = done[0]
    table, exported, mapn, n = judge_sink(prog, rep, k, f, usage, nsp)
    rep.floor("paths of the completion sink", n, 15)
    vs = prog.adts[usage]["variants"]
    idx = {m: i for m, i in mapn.items()}
    modmap = [m for m, i in mapn.items() if i == k.lmap.get(k.role["module"])]
    offers, exports = {}, {}
    for u, v in enumerate(vs):
        key = "%s: %s" % (f.id, v["n"])
        t = set(table.get(u, ()))
        rep.ob(len(t) == 1, key, "offers %s" % sorted(map(sorted, t)), f.loc())
        if len(t) == 1:
            s = min(t)
            rep.ob(modmap and modmap[0] in s and len(s) <= 2, key, "offers %s" % sorted(s), f.loc())
            rest = s - set(modmap)
            offers[u] = mapn[min(rest)] if rest else mapn[modmap[0]] if modmap else None
        ex = exported.get(u, {})
        yes = [n2 for n2, b in ex.items() if True in b]
        rep.ob(all(len(b) == 1 for b in ex.values()), key + ": module", "leaves out some exports", f.loc())
        rep.ob(len(yes) == 1 and not isinstance(yes[0], tuple), key + ": module", "offers its exports in %d namespaces" % len(yes), f.loc())
        if len(yes) == 1 and isinstance(yes[0], int):
            exports[u] = prog.adts[k.ns]["variants"][yes[0]]["n"]
    # every use
    uses = []
    c28.SINK = (usage, nsp)
    count = [0]

    def on_use(st, key, name, namespace, look, ns, where):
        count[0] += 1
        key = key + ": announced"
        on = [e for e in st.trace if e[0] == "on"]
        qual = namespace is not None and present(st, namespace) is True
        if present(st, name) is False:
            return
        want = []

        def use(e):
            return e[1][2] if e[1][0] == "adt" else None
        node = {}
        for e in on:
            node.setdefault(c28.ident(e[2]) or part(e[2], E), []).append(e)
        looks = [x[2] for x in st.facts if x[0] == "call" and x[1] == "discr" and x[2][0] == "lookup"]
        es = node.get(name, [])
        rep.ob(len(es) == 1, key, "is announced %d times" % len(es), where)
        for e in es:
            u = use(e)
            rep.ob(e[3] == ("sym", "S"), key, "is announced with another scope", where)
            nv = e[4][2] if e[4][0] == "adt" else None
            if not qual:
                rep.ob(u is not None and offers.get(u) == k.lmap.get(look), key, "is announced as a %s" % vs[u]["n"] if u is not None else "?", where)
                rep.ob(nv is not None and prog.adts[nsp]["variants"][nv]["n"] == none_name(prog, nsp), key,
                       "is announced as a name in a module", where)
                continue
            rep.ob(u is not None and exports.get(u) == ns, key, "is announced as a %s" % vs[u]["n"] if u is not None else "?", where)
            mod = [x for x in looks if x[1] == k.role["module"]]
            found = known(st, mod[0]) if mod else None
            if found == 1:
                rep.ob(nv is not None and len(e[4][3]) == 1 and any(y == mod[0] for y in terms(e[4][3][0])), key,
                       "is announced as a name in something else than its module", where)
            elif found == 0:
                rep.ob(nv is not None and not e[4][3] and prog.adts[nsp]["variants"][nv]["n"] != none_name(prog, nsp), key,
                       "is announced as a name without a module", where)
        if qual:
            es = node.get(namespace, [])
            rep.ob(len(es) == 1, key + ": module", "is announced %d times" % len(es), where)
            for e in es:
                u = use(e)
                rep.ob(u is not None and offers.get(u) == k.lmap.get(k.role["module"]), key + ": module", "is announced as something else", where)
                rep.ob(e[3] == ("sym", "S"), key + ": module", "is announced with another scope", where)
    k.on_use = on_use
    try:
        c28.judge_expr(prog, quiet, k)
        c28.judge_types(prog, quiet, k)
    finally:
        c28.SINK = None
    rep.floor("paths with a use of a name", count[0], 15)
    k9 = K9(prog)
    rep.floor("paths of the query", judge_query(prog, rep, k, k9, f), 3)


class Quiet:
    def ob(self, *a, **k):
        pass
    floor = count = finish = ob
