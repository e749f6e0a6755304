"""Known values of the intermediate representation and of evaluated programs."""
from .front import NONE, some

IR = "ticc_core::ir::"
VALUE = "ticc_eval::Value"


class Values:
    def __init__(self, prog):
        self.prog = prog
        self.vi = {}
        for d, a in prog.adts.items():
            if d.startswith(IR) or d == VALUE:
                self.vi[d] = {v["n"]: i for i, v in enumerate(a["variants"])}

    def struct(self, d, **vals):
        fs = self.prog.adts[d]["variants"][0]["f"]
        return ("adt", d, 0, tuple(vals.get(f["n"], ("sym", "%s.%s" % (d.split("::")[-1], f["n"]))) for f in fs))

    def wrap(self, d, v):
        """a structure around one value"""
        return ("adt", d, 0, (v,))

    def name(self, i):
        return self.wrap(IR + "Name", ("c", i))

    def var(self, i):
        return self.wrap(IR + "TyVar", ("c", i))

    def bytes(self, v):
        return self.wrap(IR + "ByteString", v)

    def of(self, d, variant, *args):
        return ("adt", d, self.vi[d][variant], args)

    def expr(self, variant, *args):
        return self.of(IR + "Expr", variant, *args)

    def ty(self, variant, *args):
        return self.of(IR + "Ty", variant, *args)

    def op(self, variant):
        return self.of(IR + "Op", variant)

    def branch(self, ctor, bindings, value):
        return self.struct(IR + "Branch", ctor=ctor, bindings=("arr", tuple(bindings)), value=value)

    def param(self, name, ty):
        return self.struct(IR + "LambdaParam", name=name, ty=ty)

    def definition(self, name, ty, value, export=None):
        return self.struct(IR + "ValueDef", name=name, ty=ty, value=value, export_name=NONE if export is None else some(export))

    def names(self, texts):
        return self.wrap(IR + "NameGenerator", ("arr", tuple(("s", x) for x in texts)))

    def program(self, names, defs, types=()):
        return self.struct(IR + "Program", names=self.names(names), defs=("arr", tuple(defs)), types=("arr", tuple(types)))

    def value(self, variant, *args):
        return self.of(VALUE, variant, *args)

    def tagged(self, tag, fields):
        """a constructed value: the tag and the list of fields, wherever the structures keep them"""
        def build(d):
            a = self.prog.adts.get(d)
            fs = []
            for f in a["variants"][0]["f"]:
                o, s = self.prog.adt_of(f["t"]), self.prog.tstr(f["t"])
                inner = [x for x in self.prog.adts if x.startswith("ticc_eval::") and x in s and x not in (VALUE, d)]
                if o == IR + "Name":
                    fs.append(self.name(tag))
                elif inner:
                    fs.append(build(max(inner, key=len)))
                else:
                    fs.append(("arr", tuple(fields)))
            return ("adt", d, 0, tuple(fs))
        t = self.prog.adts[VALUE]["variants"][self.vi[VALUE]["Composite"]]["f"][0]["t"]
        return self.value("Composite", build(self.prog.adt_of(t)))
