"""Access-path taint (ref-transparent, field sensitive to depth 4), with
function and closure summaries."""
from .mir import rv_operands, op_place

DEPTH = 4


def path_of(p):
    """(local, path) with derefs dropped and downcast+field folded"""
    out = []
    v = None
    for e in p[1:]:
        if isinstance(e, str):
            continue
        if "d" in e:
            v = e["d"]
        elif "f" in e:
            out.append((v, e["f"]))
            v = None
        else:
            out.append("[]")
            v = None
    return p[0], tuple(out)


def is_prefix(a, b):
    return len(a) <= len(b) and b[:len(a)] == a


NARROW = ("skip", "take", "skip_while", "take_while", "filter", "filter_map", "step_by", "nth", "last",
          "first", "split_first", "split_last", "get", "chunks", "dedup", "truncate", "map_while",
          "position", "find", "find_map", "pop", "swap_remove", "nth_back", "retain", "split_at")


class Taint:
    """One intraprocedural fixpoint. seeds: set of (local, path). Results in
    self.t : local -> set(paths); self.hits : list of (block, callee id, arg index)."""

    def __init__(self, eng, fn, seeds=(), src=None):
        self.eng = eng
        self.fn = fn
        self.prog = eng.prog
        self.t = {}
        self.hits = set()          # (block, sink id)
        self.consumers = set()     # (block, callee) of calls with a tainted argument
        self.narrow = set()        # (block, callee)
        self.rets = set()
        self.called = set()        # type parameters whose values are called with a tainted argument
        self.seed_where = {}
        self.src = src             # callable(place)->suffix path or None : additional source places
        for l, p in seeds:
            self.add(l, p)
        self.run()

    def add(self, l, p):
        p = p[:DEPTH]
        s = self.t.setdefault(l, set())
        for q in s:
            if is_prefix(q, p):
                return False
        s.add(p)
        self.changed = True
        return True

    def read(self, place):
        """suffixes tainted when reading the place"""
        l, p = path_of(place)
        out = set()
        if self.src is not None:
            r = self.src(place)
            if r is not None:
                out.add(r)
        for q in self.t.get(l, ()):
            if is_prefix(p, q):
                out.add(q[len(p):])
            elif is_prefix(q, p):
                out.add(())
        return out

    def read_op(self, o):
        p = op_place(o)
        return self.read(p) if p is not None else set()

    def write(self, place, suffixes):
        l, p = path_of(place)
        for s in suffixes:
            self.add(l, p + s)

    def run(self):
        fn = self.fn
        order = sorted(fn.reach([0]))
        self.changed = True
        n = 0
        while self.changed and n < 60:
            self.changed = False
            n += 1
            for b in order:
                blk = fn.blocks[b]
                for st in blk["s"]:
                    self.stmt(st)
                t = blk["t"]
                if t["k"] == "call":
                    self.call(b, t)
        self.rets = self.read([0])

    def stmt(self, st):
        dst, rv = st[0], st[1]
        k = rv[0]
        if k in ("use", "cast", "repeat", "un"):
            self.write(dst, self.read_op(rv_operands(rv)[0]))
        elif k == "ref":
            self.write(dst, self.read(rv[2]))
            # writes through the reference
            l, p = path_of(dst)
            l2, p2 = path_of(rv[2])
            if rv[1] and not p:
                for q in list(self.t.get(l, ())):
                    self.add(l2, p2 + q)
        elif k == "bin":
            for o in rv_operands(rv):
                if self.read_op(o):
                    self.write(dst, {()})
        elif k == "agg":
            kd = rv[1]
            vi = kd.get("vi") if kd.get("k") == "adt" else None
            isenum = kd.get("k") == "adt" and self.eng.is_enum(kd["d"])
            for i, o in enumerate(rv[2]):
                s = self.read_op(o)
                if s:
                    el = ((vi if isenum else None), i)
                    if kd.get("k") == "array":
                        el = "[]"
                    self.write(dst, {(el,) + x for x in s})
                    if kd.get("k") == "closure":
                        self.closure(kd["d"], i, s, st)
        elif k == "rawptr":
            self.write(dst, self.read(rv[1]))

    def closure(self, cid, i, suffixes, st):
        """tainted capture: does the closure body reach a sink?"""
        c = self.prog.fns.get(cid)
        if c is None:
            return
        for s in suffixes:
            summ = self.eng.summary(c, 1, ((None, i),) + s)
            self.called |= summ.called
            for h in summ.hits_flat:
                self.hits.add((("cl", cid), h))
            for nn in summ.narrow_flat:
                self.narrow.add((("cl", cid), nn))

    def closure_args(self, args):
        out = []
        for o in args:
            p = op_place(o)
            ty = None
            if p is not None and len(p) == 1:
                ty = self.fn.locals[p[0]]
            elif "k" in o:
                ty = o["k"]["t"]
            if ty is None:
                continue
            x = self.prog.types[self.prog.peel(ty)]
            if x["k"] in ("closure", "fndef"):
                out.append(x["d"])
        return out

    def call(self, b, t):
        args = t["args"]
        tainted = [(i, self.read_op(o)) for i, o in enumerate(args)]
        tainted = [(i, s) for i, s in tainted if s]
        if not tainted:
            return
        eng = self.eng
        cid = self.prog.callee(t)
        name = (t["f"].get("d") or "").split("::")[-1]
        self.consumers.add((b, cid))
        targets = self.prog.targets(t)
        stop = False
        for tg in targets:
            if eng.is_sink(tg, t):
                for i, s in tainted:
                    if eng.sink_arg(tg, i, self.arg_ty(args[i])):
                        self.hits.add((b, tg.id))
                        stop = True
        if stop:
            # the result of visiting a child is not the child
            if eng.sink_result:
                self.write(t["dst"], {()})
            return
        handled = False
        # call of a closure value: Fn::call(&closure, (args,))
        tr = t["f"].get("tr", "")
        if tr.startswith("core::ops::function::Fn"):
            r = t["f"].get("r")
            c = self.prog.fns.get(r)
            if c is not None and c.kind == "closure":
                handled = True
                for i, s in tainted:
                    for x in s:
                        if i == 0:
                            self.apply(b, t, c, 1, x, None)
                        else:
                            # tuple argument: element j -> parameter 2 + j
                            if x and isinstance(x[0], tuple):
                                self.apply(b, t, c, 2 + x[0][1], x[1:], None)
                            else:
                                for j in range(c.nargs - 1):
                                    self.apply(b, t, c, 2 + j, (), None)
            elif r is None and any(i > 0 for i, s in tainted):
                # a function this one was given: its caller knows which
                ty = self.arg_ty(args[0])
                if ty is not None and self.prog.types[self.prog.peel(ty)]["k"] == "param":
                    self.called.add(self.prog.peel(ty))
        if eng.through is not None and targets:
            return
        if not handled and targets and all(tg.kind != "closure" for tg in targets):
            handled = True
            for tg in targets:
                for i, s in tainted:
                    for x in s:
                        self.apply(b, t, tg, i + 1, x, i)
        if not handled:
            # external function
            if eng.through is not None and name not in eng.through:
                return
            if name in NARROW and not eng.ignore_narrow:
                self.narrow.add((b, cid))
            given = [self.prog.fns[c] for c in self.closure_args(args) if c in self.prog.fns]
            if name not in ("map", "flat_map", "filter_map") or not given or eng.sink_result:
                self.write(t["dst"], {()})      # otherwise the result holds what the closure makes of the elements
            for i, o in enumerate(args):
                p = op_place(o)
                if p is not None and len(p) == 1:
                    x = self.prog.types[self.fn.locals[p[0]]]
                    if x["k"] == "ref" and x["m"] and not any(i == j for j, _ in tainted):
                        self.write(p, {()})
            for cid2 in self.closure_args(args):
                c = self.prog.fns.get(cid2)
                if c is None:
                    continue
                first = 2 if c.kind == "closure" else 1
                for j in range(first, c.nargs + 1):
                    if eng.is_sink(c, None) and eng.sink_arg(c, j - 1, c.locals[j]):
                        self.hits.add((b, c.id))
                        continue
                    self.apply(b, t, c, j, (), None)

    def arg_ty(self, o):
        p = op_place(o)
        if p is not None and len(p) == 1:
            return self.fn.locals[p[0]]
        if p is None:
            return o["k"]["t"] if "k" in o else None
        last = p[-1]
        if isinstance(last, dict) and "t" in last:
            return last["t"]
        return None

    def given(self, b, t, tg, ty):
        """the callee calls one of its arguments with tainted data"""
        found = False
        for q in range(1, tg.nargs + 1):
            if tg.kind == "closure" or self.prog.peel(tg.locals[q]) != ty or q > len(t["args"]):
                continue
            found = True
            for cid in self.closure_args([t["args"][q - 1]]):
                c = self.prog.fns.get(cid)
                if c is None:
                    continue
                for j in range(2 if c.kind == "closure" else 1, c.nargs + 1):
                    if self.eng.is_sink(c, None) and self.eng.sink_arg(c, j - 1, c.locals[j]):
                        self.hits.add((b, c.id))
                        continue
                    self.apply(b, t, c, j, (), None)
        if not found:
            self.called.add(ty)

    def apply(self, b, t, tg, param, path, argi):
        summ = self.eng.summary(tg, param, path)
        for ty in sorted(summ.called):
            self.given(b, t, tg, ty)
        for h in summ.hits_flat:
            self.hits.add((b, h))
        for nn in summ.narrow_flat:
            self.narrow.add((b, nn))
        self.write(t["dst"], summ.rets)
        # flow into other &mut parameters
        for q, ps in summ.outs.items():
            if argi is None:
                continue
            i = q - 1
            if i < len(t["args"]):
                p = op_place(t["args"][i])
                if p is not None:
                    self.write(p, ps)


class Summary:
    def __init__(self):
        self.hits_flat = set()
        self.narrow_flat = set()
        self.rets = set()
        self.outs = {}
        self.called = set()


class Engine:
    def __init__(self, prog, sink, sink_arg=None, sink_result=False, ignore_narrow=False):
        self.prog = prog
        self._sink = sink
        self._sink_arg = sink_arg
        self.sink_result = sink_result
        self.ignore_narrow = ignore_narrow
        self.memo = {}
        self.through = None       # when set: only these external functions pass a value on
        self.depth = 0

    def is_enum(self, d):
        a = self.prog.adts.get(d)
        return a is not None and a["kind"] == "enum"

    def is_sink(self, fn, t):
        return self._sink(fn)

    def sink_arg(self, fn, i, ty):
        return self._sink_arg is None or self._sink_arg(fn, i, ty)

    def summary(self, fn, param, path):
        path = path[:DEPTH]
        key = (fn.id, param, path)
        if key in self.memo:
            return self.memo[key]
        s = Summary()
        self.memo[key] = s
        if self.depth > 25 or param > fn.nargs:
            return s
        self.depth += 1
        for _ in range(3):
            before = (len(s.hits_flat), len(s.rets), sum(map(len, s.outs.values())), len(s.narrow_flat), len(s.called))
            t = Taint(self, fn, [(param, path)])
            s.hits_flat |= {h for _, h in t.hits}
            s.narrow_flat |= {n for _, n in t.narrow}
            s.rets |= t.rets
            for q in range(1, fn.nargs + 1):
                if q == param:
                    continue
                x = self.prog.types[fn.locals[q]]
                if x["k"] == "ref" and x["m"] and t.t.get(q):
                    s.outs.setdefault(q, set()).update(t.t[q])
            s.called |= t.called
            if before == (len(s.hits_flat), len(s.rets), sum(map(len, s.outs.values())), len(s.narrow_flat), len(s.called)):
                break
        self.depth -= 1
        return s
