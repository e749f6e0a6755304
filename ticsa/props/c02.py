"""C02: resolver, type checker and code generator descend into every part of an item."""
from .. import trav
from ..ast import Ast, Stage, PRE

RULE = ("for each function that dispatches on the kind of an item, in everything it calls: every arm of every switch on "
        "a syntax node enum hands each child node (found through the node's accessors, transitively through match "
        "cases, constructor fields and the like) to the function that switches on the child's kind, on every path that "
        "did not find a part of the node missing; loops over children do so in every iteration")
ASSUMPTIONS = ["a node with a missing part has been reported as a syntax error, so skipping its other parts loses nothing "
               "that reaches execution"]

# (stage's item dispatcher is recognised by what it does, enum, variant, accessor)
EXCEPT = {
    ("gen", "Item", "Value", "expr"): "the bodies of builtin functions are replaced by intrinsics",
}


def run(prog, rep):
    ast = Ast(prog)
    roots = [f for f in prog.fns.values()
             if not f.trait and not f.derived and trav.switches(prog, f, PRE + "Item")]
    stages = 0
    full = 0
    for r in sorted(roots, key=lambda f: f.id):
        st = Stage(prog, ast, r, keep=lambda f: f.id == r.id or f not in roots)
        if "Expr" not in st.enums:
            continue
        stages += 1
        kind = "gen" if any(f.crate == "ticc" and "Expr" in prog.tstr(f.locals[0]) and
                            prog.adt_of(f.locals[0]) == "ticc_core::ir::Expr" for f, _ in st.sw["Expr"]) else "front"
        for ok, g, e, v, acc in st.judge():
            key = "%s: %s::%s.%s" % (g.id, e, v, acc.name)
            if not ok and (kind, e, v, acc.name) in EXCEPT:
                ok = any(st.hits(h, acc) for h in st.fns.values())
            full += e == "Expr"
            rep.ob(ok, key, "a path through %s handles %s::%s without handing its %s on" % (
                g.id, e, v, acc.name), g.loc())
    rep.floor("item dispatchers whose stage walks expressions", stages, 3)
    rep.floor("children of expressions", full, 39)
