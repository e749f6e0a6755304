"""C01: passes over the core IR visit every sub-expression, branch and type."""
from .. import trav
from ..flow import Engine, Taint
from ..mir import Anchor

RULE = ("every structural recursion over core expressions/types (a recursive function switching on the enum) passes "
        "each child field of each variant, and each element of each child list, to the recursion on every "
        "non-error path; type substitutions reach every type stored in an expression")
ASSUMPTIONS = [
    "a recursion that reaches fewer than 75% of the children is a partial predicate (is_simple, merge_branch, "
    "extract_ctor today), not a pass",
    "what a pass does with a child is not judged here, only that the child is handed to it",
]

EXPR = "ticc_core::ir::Expr"
TY = "ticc_core::ir::Ty"
BRANCH = "ticc_core::ir::Branch"
PARAM = "ticc_core::ir::LambdaParam"

# adapters applied to the environment, not to the list of children
BENIGN = ("pop", "get")

# (crate, variant, child index, kind) : why a path or loop iteration may go round the child
EXCEPT = {
    ("ticc_eval", "Call", 0, "path"): "a call of a known function in tail position compiles to a jump",
    ("ticc_eval", "If", 1, "path"): "evaluation takes one branch",
    ("ticc_eval", "If", 2, "path"): "evaluation takes one branch",
    ("ticc_eval", "Match", 1, "loop"): "evaluation takes the branch of the constructor",
    ("ticc_eval", "Match", 1, "path"): "evaluation takes the branch of the constructor",
    ("ticc_eval", "Intrinsic", 1, "loop"): "the number of arguments is fixed by the intrinsic",
    ("ticc", "Let", 1, "path"): "the inliner visits a bound value before the body, outside of the match",
    ("ticc", "Lambda", 1, "path"): "use counting stops at lambdas that may run many times (it reports many uses)",
}

# how evaluation may look for the branch it takes
CHOOSE = {"find", "find_map", "position"}


def traversals(prog, adt, scc):
    n = len(prog.adts[adt]["variants"])
    out = {}
    for f in prog.fns.values():
        if f.derived or f.kind not in ("fn", "closure"):
            continue
        s = trav.main_switch(prog, f, adt)
        if s and len(s[2]) * 2 >= n - 1 and trav.is_recursive(prog, f, scc):
            out[f.id] = f
    return out


def judge(prog, rep, f, adt, kids, eng, label):
    res = trav.analyse(prog, f, adt, kids, eng)
    n = sum(1 for x in res.values() if x[0])
    if n * 4 < len(res) * 3:
        rep.notes.append("partial, not judged: %s reaches %d/%d %s" % (f.id, n, len(res), label))
        return False
    crate = f.crate.split(".")[0]
    for c in kids:
        hit, narrow, skip, hole = res[(c.vi, c.fi)]
        name = "%s: %s.%d" % (f.id, c.vn, c.fi)
        rep.ob(hit, name, "the %s in field %d of %s never reaches the recursion" % (label, c.fi, c.vn), f.loc())
        if not hit:
            continue
        chosen = CHOOSE if (crate, c.vn, c.fi, "loop") in EXCEPT else ()
        bad = sorted(x for x in narrow if trav.name_of_callee(x) not in BENIGN and trav.name_of_callee(x) not in chosen)
        rep.ob(not bad, name + " whole", "only part of the list is visited (%s)" % ", ".join(bad), f.loc())
        if skip is not None and (crate, c.vn, c.fi, "path") not in EXCEPT:
            rep.ob(False, name + " path", "a path through the %s arm returns without visiting it" % c.vn, f.loc(skip))
        else:
            rep.ob(True, name + " path", where=f.loc())
        if hole is not None and (crate, c.vn, c.fi, "loop") not in EXCEPT:
            rep.ob(False, name + " loop", "an iteration of the loop may leave its element unvisited", f.loc(hole))
    return True


def run(prog, rep):
    for a in (EXPR, TY, BRANCH, PARAM):
        if a not in prog.adts:
            raise Anchor("type " + a)
    scc = prog.scc()
    fam_e = lambda x: x["k"] == "adt" and x["d"] in (EXPR, BRANCH)
    fam_t = lambda x: x["k"] == "adt" and x["d"] == TY
    fam_te = lambda x: x["k"] == "adt" and x["d"] in (TY, PARAM)

    tr = traversals(prog, EXPR, scc)
    eng = Engine(prog, lambda f: f.id in tr, lambda f, i, ty: ty is not None and prog.mentions(ty, fam_e))
    kids = trav.children(prog, EXPR, fam_e)
    rep.floor("child fields of expressions", len(kids), 18)
    full = sum(judge(prog, rep, f, EXPR, kids, eng, "sub-expression") for f in tr.values())
    rep.floor("passes over expressions", full, 11)

    tt = traversals(prog, TY, scc)
    engt = Engine(prog, lambda f: f.id in tt, lambda f, i, ty: ty is not None and prog.mentions(ty, fam_t))
    kids = trav.children(prog, TY, fam_t)
    rep.floor("child fields of types", len(kids), 4)
    full = sum(judge(prog, rep, f, TY, kids, engt, "component type") for f in tt.values())
    rep.floor("passes over types", full, 4)

    kids = trav.children(prog, EXPR, fam_te)
    full = 0
    for f in prog.fns.values():
        if f.derived or f.kind not in ("fn", "closure"):
            continue
        s = trav.main_switch(prog, f, EXPR)
        if not s or len(s[2]) < 4:
            continue
        res = trav.analyse(prog, f, EXPR, kids, engt)
        if any(x[0] for x in res.values()):
            full += judge(prog, rep, f, EXPR, kids, engt, "type")
    rep.floor("passes over the types in expressions", full, 3)

    # whole programs: every definition is handed to the pass
    seen = 0
    prg = "ticc_core::ir::Program"
    fields = {f["n"]: i for i, f in enumerate(prog.adts[prg]["variants"][0]["f"])}
    if "defs" not in fields:
        raise Anchor("field defs of Program")
    for f in prog.fns.values():
        if f.derived or f.kind != "fn":
            continue
        for i in range(1, f.nargs + 1):
            if prog.adt_of(f.locals[i]) != prg:
                continue
            t = Taint(eng, f, [(i, ((None, fields["defs"]),))])
            if not t.hits:
                continue
            hb = trav.hit_blocks(f, t)
            errs = trav.error_exits(prog, f)
            cut = sorted(n for n in (trav.name_of_callee(c) for b, c in t.consumers) if n in SKIPPERS)
            rep.ob(not cut, f.id + ": all definitions", "definitions are left out by %s" % cut, f.loc())
            for b, c in sorted(t.consumers):
                if trav.name_of_callee(c) == "next":
                    seen += 1
                    hole = trav.loop_skip(prog, f, b, hb, errs)
                    rep.ob(hole is None, f.id + ": every definition",
                           "an iteration over the definitions may not hand its definition to the pass", f.loc(b))
    rep.floor("loops over the definitions", seen, 4)


SKIPPERS = ("skip", "take", "skip_while", "take_while", "filter", "filter_map", "step_by", "nth", "first", "last")
