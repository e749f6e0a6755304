"""The typed syntax tree (ticc/src/compiler/syntax/node.rs): node types, their
variants, the accessors of their children."""
import re
from .mir import Anchor, op_place
from .flow import Engine, Taint
from . import trav

PRE = "ticc::compiler::syntax::node::"
NODE = re.compile(r"ticc::compiler::syntax::node::([A-Za-z]+)<")


# adapters that leave elements out
CUT = {"skip", "take", "skip_while", "take_while", "filter", "step_by", "nth", "first", "last", "find", "map_while"}


class Accessor:
    def __init__(self, fn, owner, out, many):
        self.fn, self.owner, self.out, self.many = fn, owner, out, many
        self.name = fn.id.split("::")[-1]


class Ast:
    def __init__(self, prog):
        self.prog = prog
        self.enums = {}                   # enum -> {variant index: struct}
        self.structs = set()
        for d, a in prog.adts.items():
            if not d.startswith(PRE):
                continue
            n = d[len(PRE):]
            if a["kind"] == "enum":
                m = {}
                for i, v in enumerate(a["variants"]):
                    x = prog.adt_of(v["f"][0]["t"]) if v["f"] else None
                    if x and x.startswith(PRE):
                        m[i] = x[len(PRE):]
                self.enums[n] = m
            else:
                self.structs.add(n)
        if "Expr" not in self.enums or "Type" not in self.enums or "Item" not in self.enums:
            raise Anchor("syntax tree enums Expr/Type/Item")
        self.acc = {}                     # struct -> [Accessor]
        for f in prog.fns.values():
            if f.self_ty is None or f.kind != "fn" or f.nargs != 1 or f.trait:
                continue
            o = prog.adt_of(f.self_ty)
            if not o or not o.startswith(PRE):
                continue
            s = prog.tstr(f.locals[0])
            own = o[len(PRE):]
            m = [x for x in NODE.findall(s)]
            if not m and "iter::adapters" in s:
                # an iterator: the node type is the type argument of the call that makes it
                for _, t in f.calls():
                    for ty in t["f"].get("a", []):
                        d = prog.adt_of(ty)
                        if d and d.startswith(PRE) and not m:
                            m = [d[len(PRE):]]
            if not m:
                continue
            many = not s.startswith("core::option::Option<" + PRE) and not s.startswith(PRE)
            self.acc.setdefault(own, []).append(Accessor(f, own, m[0], many))

    def family(self, root):
        """node types that lead to root through accessors, with root's own"""
        fam = {root} | set(self.enums.get(root, {}).values())
        while True:
            more = {o for o, l in self.acc.items() if o not in fam and any(a.out in fam for a in l)
                    and self.inside(o)}
            if not more:
                return fam
            fam |= more

    def inside(self, o):
        # not items: they are not part of expressions or types
        return o not in self.enums["Item"].values() and o != "Item"


def node_of(prog, ty):
    d = prog.adt_of(ty)
    return d[len(PRE):] if d and d.startswith(PRE) else None


def reach_edges(fn, starts, avoid, edges):
    """blocks reachable without entering `avoid` or taking one of `edges`"""
    seen = set()
    q = [s for s in starts if s not in avoid]
    seen.update(q)
    while q:
        b = q.pop()
        for s in fn.succ(b):
            if s not in seen and s not in avoid and (b, s) not in edges:
                seen.add(s)
                q.append(s)
    return seen


class Stage:
    """One consumer of the syntax tree: the functions it consists of, the node
    enums it switches on, and whether every child is handed on."""

    def __init__(self, prog, ast, root, keep=lambda f: True):
        self.prog, self.ast = prog, ast
        self.fns = {}
        todo = [root]
        while todo:
            f = todo.pop()
            if f.id in self.fns or f.file.endswith("syntax/node.rs") or not keep(f):
                continue
            self.fns[f.id] = f
            todo += [prog.fns[x] for x in prog.cg()[f.id] if x in prog.fns]
        self.sw = {}
        for e in ast.enums:
            for f in self.fns.values():
                if f.trait and f.trait.endswith("AstNode"):
                    continue
                for s in trav.switches(prog, f, PRE + e):
                    if len(s[2]) * 2 >= len(ast.enums[e]) or e == "Item":
                        self.sw.setdefault(e, []).append((f, s))
        self.enums = set(self.sw)
        self.fam = set(self.enums)
        while True:
            more = {o for o, l in ast.acc.items() if o not in self.fam and any(a.out in self.fam for a in l)}
            if not more:
                break
            self.fam |= more
        self.visitors = {f.id for l in self.sw.values() for f, _ in l}
        self.eng = Engine(prog, lambda f: f.id in self.visitors,
                          lambda f, i, ty: ty is not None and node_of(prog, ty) in self.enums)
        self.opt = Engine(prog, lambda f: False)
        self.opt.through = {"branch", "as_ref", "clone", "cloned", "copied", "map", "next", "into_iter", "zip",
                            "enumerate", "rev", "by_ref", "iter", "from_residual"}
        self.memo = {}
        self.failures = set()
        self.judged = set()

    def accessors(self, s):
        return [a for a in self.ast.acc.get(s, []) if a.out in self.fam]

    def sites(self, g, acc):
        return [b for b, t in g.calls() if any(x.id == acc.fn.id for x in self.prog.targets(t))]

    def elem_edges(self, g, taint):
        """(some, none) edges of switches on tainted Options"""
        some, none = [], set()
        for b in g.reach([0]):
            tm = g.blocks[b]["t"]
            if tm["k"] != "switch":
                continue
            p = op_place(tm["o"])
            for st in g.blocks[b]["s"]:
                if st[0] == p and st[1][0] == "discr":
                    if self.prog.types[st[1][2]].get("d") != "core::option::Option":
                        continue
                    if () in taint.read(st[1][1]):
                        z = [x for v, x in tm["tg"] if int(v) == 0]
                        o = [x for v, x in tm["tg"] if int(v) == 1]
                        some += [(b, x) for x in (o or [tm["e"]])]
                        none |= {(b, x) for x in (z or [tm["e"]])}
        return some, none

    def none_edges(self, g, s):
        k = ("none", g.id, s)
        if k not in self.memo:
            out = set()
            for a in self.ast.acc.get(s, []):
                for b in ([] if a.many else self.sites(g, a)):
                    t = Taint(self.opt, g, [(g.blocks[b]["t"]["dst"][0], ())])
                    out |= self.elem_edges(g, t)[1]
            self.memo[k] = out
        return self.memo[k]

    def hits(self, g, acc):
        """blocks of g that hand the child(ren) of the accessor on"""
        k = ("hits", g.id, acc.fn.id)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = set()
        out = set()
        for b in self.sites(g, acc):
            t = Taint(self.eng, g, [(g.blocks[b]["t"]["dst"][0], ())])
            if acc.many and any(trav.name_of_callee(c) in CUT for _, c in t.consumers):
                continue
            hb = trav.hit_blocks(g, t)
            # switched on in place
            for f, s in self.sw.get(acc.out, []):
                if f.id == g.id and () in t.read(s[1]):
                    hb.add(s[0])
            struct = acc.out not in self.ast.enums
            if struct:
                hb = self.struct_hits(g, acc.out, t)
            nexts = [c for c, cid in t.consumers if trav.name_of_callee(cid) == "next"]
            if acc.many or nexts:
                for nb in nexts:
                    t2 = Taint(self.opt, g, [(g.blocks[nb]["t"]["dst"][0], ())])
                    some, _ = self.elem_edges(g, t2)
                    ok = bool(some)
                    for (sb, x) in some:
                        if struct:
                            if any(not self.covered(g, x, {nb}, a) for a in self.accessors(acc.out)):
                                r = reach_edges(g, [x], hb, set())
                                if not (x in hb or nb not in r and not any(
                                        g.blocks[y]["t"]["k"] == "return" for y in r)):
                                    ok = False
                        elif x not in hb:
                            r = reach_edges(g, [x], hb | trav.error_exits(self.prog, g),
                                            self.none_edges(g, acc.owner))
                            if nb in r or any(g.blocks[y]["t"]["k"] == "return" for y in r):
                                ok = False
                    if ok:
                        out.add(nb)
                # closures applied to the elements
                if t.hits and not nexts:
                    out |= hb
                if struct and not nexts or not acc.many:
                    out |= hb
            elif struct:
                some, _ = self.elem_edges(g, Taint(self.opt, g, [(g.blocks[b]["t"]["dst"][0], ())]))
                starts = [x for _, x in some] or [g.blocks[b]["t"]["t"]]
                if all(self.covered(g, x, set(), a) for x in starts for a in self.accessors(acc.out)):
                    out.add(b)
                out |= hb
            else:
                out |= hb
        # helpers that take the owner, and closures
        for b, t in g.calls():
            for h in self.prog.targets(t):
                if h.id in self.fns and h.id != g.id and any(
                        node_of(self.prog, h.locals[i]) == acc.owner for i in range(1, h.nargs + 1)):
                    if self.covered(h, 0, set(), acc):
                        out.add(b)
        for b in g.reach([0]):
            for st in g.blocks[b]["s"]:
                rv = st[1]
                if rv[0] == "agg" and rv[1].get("k") == "closure":
                    c = self.prog.fns.get(rv[1]["d"])
                    if c is not None and self.sites(c, acc) and self.covered(c, 0, set(), acc):
                        out.add(b)
        self.memo[k] = out
        return out

    def struct_hits(self, g, s, taint):
        out = set()
        for b, t in g.calls():
            if not any(taint.read_op(o) for o in t["args"]):
                continue
            cands = [h for h in self.prog.targets(t) if h.id in self.fns]
            cands += [self.prog.fns[c] for c in taint.closure_args(t["args"]) if c in self.fns]
            for h in cands:
                if any(node_of(self.prog, h.locals[i]) == s for i in range(1, h.nargs + 1)):
                    if all(self.covered(h, 0, set(), a) for a in self.accessors(s)):
                        out.add(b)
        return out

    def covered(self, g, entry, exits, acc):
        """every path from entry to a return or an exit hands the child on, or
        found a part of the node missing"""
        k = (g.id, entry, frozenset(exits), acc.fn.id)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = True
        avoid = self.hits(g, acc) | trav.error_exits(self.prog, g)
        r = True
        if entry not in avoid:
            seen = reach_edges(g, [entry], avoid, self.none_edges(g, acc.owner))
            ends = {b for b in seen if g.blocks[b]["t"]["k"] == "return"}
            r = not ends and not (seen & set(exits))
        self.memo[k] = r
        self.judged.add((g.id, acc.fn.id))
        return r

    def judge(self):
        """yield (ok, function, enum, variant name, accessor)"""
        for e, l in sorted(self.sw.items()):
            names = self.prog.adts[PRE + e]["variants"]
            for g, (b, place, arms, other) in l:
                loops = set()
                for nb, t in g.calls():
                    if trav.name_of_callee(self.prog.callee(t)) == "next" and b in g.reach([nb]) and nb in g.reach([b]):
                        loops.add(nb)
                for vi, s in sorted(self.ast.enums[e].items()):
                    if e == "Item" and vi not in arms:
                        continue
                    for a in self.accessors(s):
                        yield self.covered(g, arms.get(vi, other), loops, a), g, e, names[vi]["n"], a
