"""Structural recursions over an enum: which child of which variant reaches the recursion."""
from .flow import Engine, Taint, path_of, is_prefix
from .mir import op_place, rv_places


def switches(prog, fn, adt):
    """[(block, discr place, {variant: target}, otherwise)] of the discriminant switches on adt"""
    out = []
    for b in sorted(fn.reach([0])):
        blk = fn.blocks[b]
        t = blk["t"]
        if t["k"] != "switch":
            continue
        p = op_place(t["o"])
        if p is None or len(p) != 1:
            continue
        for st in reversed(blk["s"]):
            if st[0] == p and st[1][0] == "discr":
                if prog.types[st[1][2]].get("d") == adt:
                    m = discr_map(prog, adt)
                    arms = {m[int(v)]: tb for v, tb in t["tg"] if int(v) in m}
                    out.append((b, st[1][1], arms, t["e"]))
                break
    return out


def discr_map(prog, adt):
    return {int(v["discr"]): i for i, v in enumerate(prog.adts[adt]["variants"])}


def main_switch(prog, fn, adt):
    best = None
    for s in switches(prog, fn, adt):
        if best is None or len(s[2]) > len(best[2]):
            best = s
    return best


def is_recursive(prog, fn, scc):
    return len(scc[fn.id]) > 1 or fn.id in prog.cg()[fn.id]


ITER = {"into_iter", "iter", "iter_mut", "drain", "next", "map", "zip", "enumerate", "rev", "chain", "extend",
        "for_each", "cloned", "copied", "collect", "all", "any", "fold", "sum", "flat_map", "try_for_each", "peekable",
        "max", "min", "by_ref", "len", "is_empty", "join", "as_slice", "deref", "deref_mut", "borrow", "as_ref",
        "as_mut", "clone", "to_vec", "with_capacity"}


def error_exits(prog, fn):
    """blocks after which the function only returns an error"""
    out = set()
    for b, t in fn.calls():
        d = t["f"].get("d") or ""
        if d.endswith("FromResidual::from_residual"):
            out.add(b)
        if t["t"] is None:
            out.add(b)
    for b in fn.reach([0]):
        for st in fn.blocks[b]["s"]:
            rv = st[1]
            if rv[0] == "agg" and rv[1].get("k") == "adt" and rv[1]["v"] == "Err":
                out.add(b)
    return out


def skipping_path(fn, start, cut, errs, prog):
    """a path from start to a normal return that avoids the cut blocks (and
    error exits); returns the returning block or None"""
    avoid = set(cut) | set(errs)
    if start in avoid:
        return None
    for b in fn.reach([start], avoid):
        if fn.blocks[b]["t"]["k"] == "return":
            return b
    return None


def hit_blocks(fn, taint):
    """blocks of fn at which a hit happens; closure hits are placed at the
    creation of the closure"""
    out = set()
    for w, _ in taint.hits:
        if isinstance(w, tuple):
            for b in fn.reach([0]):
                for st in fn.blocks[b]["s"]:
                    rv = st[1]
                    if rv[0] == "agg" and rv[1].get("k") == "closure" and rv[1]["d"] == w[1]:
                        out.add(b)
        else:
            out.add(w)
    return out


def name_of_callee(c):
    return (c or "").split("::")[-1].split("<")[0]


class Child:
    def __init__(self, vi, vn, fi, ty, is_list):
        self.vi, self.vn, self.fi, self.ty, self.is_list = vi, vn, fi, ty, is_list


def children(prog, adt, pred):
    out = []
    for vi, v in enumerate(prog.adts[adt]["variants"]):
        for fi, f in enumerate(v["f"]):
            if prog.mentions(f["t"], pred):
                x = prog.types[f["t"]]
                lst = x["k"] == "adt" and x["d"].endswith("::Vec")
                out.append(Child(vi, v["n"], fi, f["t"], lst))
    return out


def analyse(prog, fn, adt, kids, eng):
    """per child: (reached, narrowing adapters, skipping path or None, list-loop hole or None)"""
    sw = main_switch(prog, fn, adt)
    l, rp = path_of(sw[1])
    errs = error_exits(prog, fn)
    res = {}
    for c in kids:
        t = Taint(eng, fn, [(l, rp + ((c.vi, c.fi),))])
        hb = hit_blocks(fn, t)
        arm = sw[2].get(c.vi, sw[3])
        cut = set(hb)
        loop_hole = None
        if c.is_list:
            cons = {b for b, cid in t.consumers if name_of_callee(cid) in ITER}
            cut |= cons
            for b in cons:
                tm = fn.blocks[b]["t"]
                if name_of_callee(prog.callee(tm)) == "next":
                    # Some edge of the loop: back to the loop head without visiting the element
                    hole = loop_skip(prog, fn, b, hb, errs)
                    if hole is not None:
                        loop_hole = hole
            if hb and not any(b in cons for b, _ in t.consumers) and any(
                    name_of_callee(cid) in ("index", "index_mut") for _, cid in t.consumers):
                loop_hole = next(b for b, cid in t.consumers if name_of_callee(cid) in ("index", "index_mut"))
            if loop_hole is None and hb:
                loop_hole = slice_hole(prog, fn, t, errs)
        skip = skipping_path(fn, arm, cut, errs, prog) if hb else None
        narrow = {n for _, n in t.narrow}
        res[(c.vi, c.fi)] = (bool(hb), narrow, skip, loop_hole)
    return res


def slice_hole(prog, fn, taint, errs):
    """a slice pattern of open length (`[a, b, ..]`) whose path does not go on to
    the remaining elements"""
    cover = set(errs)
    for b in fn.reach([0]):
        for st in fn.blocks[b]["s"]:
            for p in rv_places(st[1]):
                k = next((i for i, e in enumerate(p) if isinstance(e, dict) and "sub" in e), None)
                if k is not None and taint.read(p[:k]):
                    cover.add(b)
    cover |= {b for b, cid in taint.consumers if name_of_callee(cid) in ITER - {"len", "is_empty", "as_slice", "deref"}}
    for b in fn.reach([0]):
        tm = fn.blocks[b]["t"]
        if tm["k"] != "switch":
            continue
        p = op_place(tm["o"])
        if p is None:
            continue
        for st in fn.blocks[b]["s"]:
            rv = st[1]
            if st[0] == p and rv[0] == "un" and rv[1] == "PtrMetadata" and taint.read_op(rv[2]):
                if tm["e"] not in cover and any(fn.blocks[r]["t"]["k"] == "return" for r in fn.reach([tm["e"]], cover)):
                    return b
            if st[0] == p and rv[0] == "bin" and rv[1] == "Ge" and taint.read_op(rv[2]):
                for x in {tm["e"]} | {x for v, x in tm["tg"] if int(v) != 0}:
                    if x not in cover and any(fn.blocks[r]["t"]["k"] == "return" for r in fn.reach([x], cover)):
                        return b
    return None


def loop_skip(prog, fn, nb, hits, errs):
    t = fn.blocks[nb]["t"]
    b = t["t"]
    # find the switch on the Option returned
    seen = set()
    while b is not None and b not in seen:
        seen.add(b)
        tm = fn.blocks[b]["t"]
        if tm["k"] == "switch":
            some = [x for v, x in tm["tg"] if v == "1"]
            some = some or [tm["e"]]
            avoid = set(hits) | set(errs)
            s = some[0]
            if s in avoid:
                return None
            # only a loop whose own iteration visits something
            if not (fn.reach([s], {nb}) & set(hits)):
                return None
            r = fn.reach([s], avoid)
            if nb in r or any(fn.blocks[x]["t"]["k"] == "return" for x in r):
                return nb
            return None
        if tm["k"] == "goto":
            b = tm["t"]
        else:
            return None
    return None
