"""Model of the dumped MIR: functions, types, control flow, call graph."""
import json, glob, os, re
from collections import defaultdict, deque


class Fn:
    __slots__ = ("id", "kind", "file", "line", "nargs", "locals", "names", "vars", "blocks", "crate",
                 "raw", "prog", "root", "upvars", "trait", "trait_item", "derived", "self_ty", "_preds", "_calls",
                 "_cache")

    def __init__(self, prog, crate, d, tmap):
        self.prog = prog
        self.crate = crate
        self.id = d["id"]
        self.kind = d["kind"]
        self.file = d["file"]
        self.line = d["line"]
        self.nargs = d["args"]
        self.locals = [tmap[x[0]] for x in d["locals"]]
        self.names = [x[1] if len(x) > 1 else None for x in d["locals"]]
        self.vars = d["vars"]
        self.blocks = d["blocks"]
        self.root = d.get("root")
        self.upvars = d.get("upvars", [])
        self.trait = d.get("trait")
        self.trait_item = d.get("trait_item")
        self.derived = d.get("derived", False)
        self.self_ty = tmap[d["self"]] if "self" in d else None
        self.raw = d
        self._preds = None
        self._calls = None
        self._cache = {}

    # ---- control flow -------------------------------------------------
    def succ(self, b, unwind=False):
        return succ_of(self.blocks[b]["t"], unwind)

    def preds(self):
        if self._preds is None:
            p = defaultdict(list)
            for b in range(len(self.blocks)):
                for s in self.succ(b):
                    p[s].append(b)
            self._preds = p
        return self._preds

    def calls(self):
        """[(block, terminator)] of every call on a non-cleanup path"""
        if self._calls is None:
            r = self.reach([0])
            self._calls = [(b, self.blocks[b]["t"]) for b in sorted(r) if self.blocks[b]["t"]["k"] == "call"]
        return self._calls

    def reach(self, starts, avoid=()):
        avoid = set(avoid)
        seen = set()
        q = [s for s in starts if s not in avoid]
        seen.update(q)
        while q:
            b = q.pop()
            for s in self.succ(b):
                if s not in seen and s not in avoid:
                    seen.add(s)
                    q.append(s)
        return seen

    def returns(self):
        return [b for b in self.reach([0]) if self.blocks[b]["t"]["k"] == "return"]

    def loc(self, b=None):
        if b is None:
            return "%s:%d" % (self.file, self.line)
        return "%s:%d" % (self.file, self.blocks[b].get("l", self.line))

    def short(self):
        return self.id

    def __repr__(self):
        return "<Fn %s>" % self.id


def succ_of(t, unwind=False):
    k = t["k"]
    out = []
    if k == "goto":
        out = [t["t"]]
    elif k == "switch":
        out = [x[1] for x in t["tg"]] + [t["e"]]
    elif k in ("drop", "assert"):
        out = [t["t"]]
    elif k == "call":
        if t["t"] is not None:
            out = [t["t"]]
    if unwind and t.get("u") is not None:
        out = out + [t["u"]]
    return out


class Prog:
    def __init__(self, dump_dir, expected):
        self.fns = {}
        self.types = []          # global types: dict with k, s, ...
        self.tkey = {}
        self.adts = {}
        self.consts = {}
        self.impls = []
        self.unsafe = []
        self.files = set()
        for name in expected:
            p = os.path.join(dump_dir, name + ".json")
            d = json.load(open(p))
            self._load(name, d)
        self._closure_parent()
        self._cg = None
        self._rcg = None

    def _load(self, name, d):
        tmap = {}
        raw = d["types"]
        fixups = []
        for t in raw:
            key = (t["s"], t["k"])
            if t["k"] == "param" or "/#" in t["s"]:
                pass
            g = self.tkey.get(key)
            if g is None:
                g = len(self.types)
                self.tkey[key] = g
                nt = dict(t)
                nt["id"] = g
                self.types.append(nt)
                fixups.append(nt)
            tmap[t["id"]] = g
        for nt in fixups:
            if "a" in nt:
                nt["a"] = [tmap[x] for x in nt["a"]]
            if "up" in nt:
                nt["up"] = [tmap[x] for x in nt["up"]]
            if "t" in nt:
                nt["t"] = tmap[nt["t"]]
        for a in d["adts"]:
            if a["d"] in self.adts and not a["local"]:
                continue
            for v in a["variants"]:
                for f in v["f"]:
                    f["t"] = tmap[f["t"]]
            self.adts[a["d"]] = a
        for k, v in d["consts"]:
            self.consts[k] = int(v)
        for i in d["impls"]:
            self.impls.append((i["trait"], tmap[i["self"]]))
        self.unsafe += d["unsafe"]
        isbin = name.endswith(".bin")
        for f in d["fns"]:
            remap_types(f, tmap)
            fn = Fn(self, name, f, tmap)
            i = fn.id
            if isbin and i in self.fns:
                i = fn.id = i + "#bin"
            self.fns[i] = fn
            self.files.add(fn.file)

    def _closure_parent(self):
        self.closures_of = defaultdict(list)
        for f in self.fns.values():
            if f.kind == "closure":
                self.closures_of[f.root].append(f)

    # ---- types --------------------------------------------------------
    def ty(self, t):
        return self.types[t]

    def tstr(self, t):
        return self.types[t]["s"]

    def peel(self, t):
        """strip references, boxes, Rc/Arc"""
        while True:
            x = self.types[t]
            if x["k"] in ("ref", "ptr"):
                t = x["t"]
            elif x["k"] == "adt" and x["d"] in ("alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc") and x["a"]:
                t = x["a"][0]
            else:
                return t

    def adt_of(self, t):
        x = self.types[self.peel(t)]
        return x["d"] if x["k"] == "adt" else None

    def mentions(self, t, pred, seen=None):
        """does the type structurally contain (through fields of generics args,
        containers, tuples) a type satisfying pred(type dict)?"""
        if seen is None:
            seen = set()
        if t in seen:
            return False
        seen.add(t)
        x = self.types[t]
        if pred(x):
            return True
        for c in x.get("a", []):
            if self.mentions(c, pred, seen):
                return True
        if "t" in x and self.mentions(x["t"], pred, seen):
            return True
        for c in x.get("up", []):
            if self.mentions(c, pred, seen):
                return True
        return False

    # ---- call graph ---------------------------------------------------
    def callee(self, t):
        f = t["f"]
        return f.get("r") or f.get("d")

    def targets(self, t):
        """workspace functions a call terminator may enter directly"""
        f = t["f"]
        r = f.get("r")
        if r in self.fns:
            if f.get("ik") == "virtual":
                return self.impl_methods(f["d"])
            return [self.fns[r]]
        d = f.get("d")
        if d is None:
            return []
        if f.get("ik") == "virtual" or (r is None and "tr" in f):
            return self.impl_methods(d)
        if d in self.fns:
            return [self.fns[d]]
        return []

    def impl_methods(self, trait_item):
        out = [x for x in self.fns.values() if x.trait_item == trait_item]
        if trait_item in self.fns:
            out.append(self.fns[trait_item])
        return out

    def refs(self, fn):
        """closures created and fn items mentioned as values in fn"""
        c = fn._cache.get("refs")
        if c is None:
            c = set()
            for b in fn.reach([0]):
                blk = fn.blocks[b]
                for st in blk["s"]:
                    rv = st[1]
                    if rv[0] == "agg" and rv[1].get("k") == "closure":
                        c.add(rv[1]["d"])
                    for o in rv_operands(rv):
                        self._fnref(o, c)
                t = blk["t"]
                if t["k"] == "call":
                    for o in t["args"]:
                        self._fnref(o, c)
            fn._cache["refs"] = c
        return c

    def _fnref(self, o, c):
        if "k" in o:
            ty = self.types[o["k"]["t"]]
            if ty["k"] == "fndef":
                c.add(ty["d"])
            elif ty["k"] == "closure":
                c.add(ty["d"])

    def cg(self):
        if self._cg is None:
            g = defaultdict(set)
            for f in self.fns.values():
                for _, t in f.calls():
                    for x in self.targets(t):
                        g[f.id].add(x.id)
                    # Fn* call of a closure
                    r = t["f"].get("r")
                    if r in self.fns:
                        g[f.id].add(r)
                for r in self.refs(f):
                    if r in self.fns:
                        g[f.id].add(r)
                    else:
                        for x in self.impl_methods(r):
                            g[f.id].add(x.id)
            self._cg = g
        return self._cg

    def rcg(self):
        if self._rcg is None:
            r = defaultdict(set)
            for a, bs in self.cg().items():
                for b in bs:
                    r[b].add(a)
            self._rcg = r
        return self._rcg

    def reachable(self, roots):
        g = self.cg()
        seen = set(roots)
        q = list(roots)
        while q:
            x = q.pop()
            for y in g.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    q.append(y)
        return seen

    def reaching(self, targets):
        g = self.rcg()
        seen = set(targets)
        q = list(targets)
        while q:
            x = q.pop()
            for y in g.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    q.append(y)
        return seen

    def find(self, suffix, crate=None):
        """functions whose id ends with the given path suffix"""
        out = []
        for i, f in self.fns.items():
            if f.kind in ("fn", "const") and (i == suffix or i.endswith("::" + suffix)):
                if crate is None or f.crate == crate:
                    out.append(f)
        return out

    def one(self, suffix, crate=None):
        l = self.find(suffix, crate)
        if len(l) != 1:
            raise Anchor("function `%s`%s: found %d" % (suffix, " in " + crate if crate else "", len(l)))
        return l[0]

    def scc(self, ids=None):
        g = self.cg()
        nodes = list(self.fns) if ids is None else list(ids)
        idx = {}
        low = {}
        st = []
        on = set()
        comp = {}
        n = [0]
        for root in nodes:
            if root in idx:
                continue
            work = [(root, iter(g.get(root, ())))]
            idx[root] = low[root] = n[0]
            n[0] += 1
            st.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in self.fns:
                        continue
                    if w not in idx:
                        idx[w] = low[w] = n[0]
                        n[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(g.get(w, ()))))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    fs = frozenset(c)
                    for w in c:
                        comp[w] = fs
        return comp


class Anchor(Exception):
    """a construct the analysis is anchored on is missing"""


def rv_operands(rv):
    k = rv[0]
    if k == "use" or k == "repeat":
        return [rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return list(rv[2])
    return []


def rv_places(rv):
    """places read by an rvalue"""
    out = []
    for o in rv_operands(rv):
        p = op_place(o)
        if p is not None:
            out.append(p)
    if rv[0] == "ref":
        out.append(rv[2])
    elif rv[0] in ("rawptr", "discr"):
        out.append(rv[1])
    return out


def op_place(o):
    if "c" in o:
        return o["c"]
    if "m" in o:
        return o["m"]
    return None


def _remap_place(p, tmap):
    for e in p[1:]:
        if isinstance(e, dict) and "t" in e:
            e["t"] = tmap[e["t"]]


def _remap_op(o, tmap):
    if "k" in o:
        o["k"]["t"] = tmap[o["k"]["t"]]
    else:
        p = op_place(o)
        if p is not None:
            _remap_place(p, tmap)


def remap_types(f, tmap):
    for _, p in f["vars"]:
        _remap_place(p, tmap)
    for b in f["blocks"]:
        for st in b["s"]:
            _remap_place(st[0], tmap)
            rv = st[1]
            for o in rv_operands(rv):
                _remap_op(o, tmap)
            if rv[0] == "ref":
                _remap_place(rv[2], tmap)
            elif rv[0] in ("rawptr", "discr"):
                _remap_place(rv[1], tmap)
                if rv[0] == "discr":
                    rv[2] = tmap[rv[2]]
            elif rv[0] == "cast":
                rv[3] = tmap[rv[3]]
            elif rv[0] == "agg" and "a" in rv[1]:
                rv[1]["a"] = [tmap[x] for x in rv[1]["a"]]
        t = b["t"]
        k = t["k"]
        if k == "switch":
            _remap_op(t["o"], tmap)
        elif k == "drop":
            _remap_place(t["p"], tmap)
            t["ty"] = tmap[t["ty"]]
        elif k == "assert":
            _remap_op(t["o"], tmap)
            for o in t["ops"]:
                _remap_op(o, tmap)
        elif k == "call":
            fj = t["f"]
            if "a" in fj:
                fj["a"] = [tmap[x] for x in fj["a"]]
            if "fp" in fj:
                _remap_op(fj["fp"], tmap)
            for o in t["args"]:
                _remap_op(o, tmap)
            _remap_place(t["dst"], tmap)


def place_key(p):
    """hashable form of a place with field names"""
    out = [p[0]]
    for e in p[1:]:
        if isinstance(e, str):
            out.append(e)
        elif "f" in e:
            out.append(("f", e["f"]))
        elif "d" in e:
            out.append(("d", e["d"]))
        elif "i" in e:
            out.append("[]")
        elif "ci" in e:
            out.append(("ci", e["ci"], e["e"]))
        else:
            out.append("[]")
    return tuple(out)
