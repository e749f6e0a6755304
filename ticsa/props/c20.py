"""C20: what is evaluated, by what, and how its values are shown; what the tool does for each of its options."""
from itertools import product
from ..mir import Anchor
from ..absint import State, short, project
from ..front import OPTION, RESULT, NONE, some
from ..text import Text, lit, show, template, known
from ..irval import Values, IR, VALUE
from ..world import World
from .c04 import terms

RULE = ("the entry points of evaluation over programs with every arrangement of up to three definitions, for each runner and each outcome; "
        "the printer over values of every form and nesting, and over every byte in a string; every path of the tool that runs, translates or "
        "writes something, with the options it asked for on the way")
ASSUMPTIONS = ["texts are put together as std::fmt does it", "process::exit ends the program"]
UNIT = "ticc::CompilationUnit"
RUNNER = "ticc::Runner"


class Eval(Text):
    """translation gives the program; a runner gives the outcome"""

    def __init__(self, prog, generate, program, outcome, checks=()):
        super().__init__(prog)
        self.generate, self.program, self.outcome = generate, program, outcome
        self.checks = checks

    def opaque(self, fn, args):
        return fn.id in self.checks or fn.crate == "ticc_eval" and fn.kind == "fn" and short(fn.id) == "eval"

    def model(self, name, callee, args, st, t, fn):
        if callee == self.generate:
            st.trace.append(("generate",))
            return [(st, self.program)]
        if callee in self.checks:
            st.trace.append(("check", callee, tuple(self.deep(st, a) for a in args)))
            return [(st, ("tup", ()))]
        if callee and callee.startswith("ticc_eval::") and name == "eval":
            st.trace.append(("runner", callee, tuple(self.deep(st, a) for a in args)))
            return [(st, o(st, self.deep(st, args[1])) if callable(o) else o) for o in [self.outcome]]
        return super().model(name, callee, args, st, t, fn)


def one(what, l):
    if len(l) != 1:
        raise Anchor("%s: %s" % (what, [getattr(f, "id", f) for f in l]))
    return l[0]


class C:
    def __init__(self, prog, rep):
        self.prog, self.rep, self.v = prog, rep, Values(prog)
        gen = [f for f in prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and not f.derived and f.nargs == 1 and
               prog.adt_of(f.locals[0]) == IR + "Program" and prog.adt_of(f.locals[1]) == UNIT]
        self.generate = one("translation", [f.id for f in gen if not any(f.id in prog.reachable([g.id]) for g in gen if g is not f)])
        self.checks = {f.id for f in prog.fns.values() if f.crate == "ticc_core" and f.kind == "fn" and
                       any(prog.adt_of(x) == IR + "Program" for x in f.locals[1:f.nargs + 1]) and prog.tstr(f.locals[0]) == "()"}
        self.runners = [v["n"] for v in prog.adts[RUNNER]["variants"]]

    def api(self, ret):
        return one("evaluation to " + ret, [f for f in self.prog.fns.values() if f.crate == "ticc" and f.kind == "fn" and f.nargs >= 2 and
                                            prog_ty(self.prog, f, 1) == UNIT and prog_ty(self.prog, f, 2) == RUNNER and
                                            f.id.startswith(UNIT + "::") and self.prog.tstr(f.locals[0]).startswith(ret)])

    # ---- values
    def forms(self, depth):
        """[(value, its text, whether it has parts)]"""
        v = self.v
        n, b = ("sym", "n"), ("c", 1)
        out = [(v.value("Int", n), "{n}", False), (v.value("Bool", b), "true", False), (v.value("Fn", ("sym", "f")), "\\_ -> _", True),
               (v.value("Int", ("c", 18446744073709551615)), "18446744073709551615", False), (v.value("Bool", ("c", 0)), "false", False),
               (v.tagged(0, ()), "Nil", False), (v.value("String", v.bytes(("arr", (("c", 97), ("c", 32))))), '"a "', False)]
        if depth == 0:
            return out
        inner = self.forms(depth - 1)
        few = inner
        for x in few:
            out.append((v.tagged(1, (x[0],)), "One " + par(x), True))
        for x, y in product(few[:7] if depth == 1 else few[:7:3] + few[-7:], repeat=2):
            out.append((v.tagged(2, (x[0], y[0])), "Two %s %s" % (par(x), par(y)), True))
        out.append((v.tagged(2, tuple(x[0] for x in few[:3])), "Two " + " ".join(par(x) for x in few[:3]), True))
        return out

    def evaluation(self):
        prog, rep, v = self.prog, self.rep, self.v
        f = self.api("core::result::Result<alloc::string::String")
        names = ["Nil", "One", "Two"] + ["n%d" % i for i in range(4)]
        shown = lambda p: "{%s}" % (p[2][1] if p[0] == "shown" and p[2][0] == "sym" else p,)
        n = 0

        def run(defs, outcome, runner):
            it = Eval(prog, self.generate, v.program(names, defs), outcome, self.checks)
            r = ("adt", RUNNER, self.runners.index(runner), ())
            ends = [(st, it.deep(st, x)) for st, x in it.start(f, [("sym", "unit"), r])]
            return it, ends

        def d(i, export, ty=None):
            return v.definition(v.name(3 + i), ty or v.ty("Int"), v.expr("Int", ("c", 5)), None if export is None else ("s", export))
        # which are evaluated, and in what order
        forms = self.forms(0)
        for k in range(4):
            for ex in product((False, True), repeat=k) if k < 3 else list(product((False, True), repeat=k)) * 2:
                for fails in (False, True):
                    for runner in self.runners if k == 2 else self.runners[:1]:
                        n += 1
                        called = lambda i: "e%d" % (i if n % 2 else i // 2)
                        defs = [d(i, called(i) if x else None) for i, x in enumerate(ex)]
                        vals = [forms[(i + 1) % len(forms)] for i, x in enumerate(ex) if x]
                        out = ("adt", RESULT, 1, (v.struct("ticc_eval::Trap", message=("sym", "why")),)) if fails else \
                            ("adt", RESULT, 0, (("arr", tuple(x[0] for x in vals)),))
                        it, ends = run(defs, out, runner)
                        key = "evaluation of %d definitions" % k
                        if len(ends) != 1 or it.diverged:
                            rep.ob(False, key, "does not give one answer", f.loc())
                            continue
                        st, r = ends[0]
                        rs = [e for e in st.trace if e[0] == "runner"]
                        if len(rs) != 1:
                            rep.ob(False, key, "does not run the program once", f.loc())
                            continue
                        rep.ob(rs[0][1].split("::")[-2] == runner.lower(), "runner " + runner, "runs %s instead" % rs[0][1], f.loc())
                        rep.ob(rs[0][2][0] == it.program, key, "runs another program", f.loc())
                        want = tuple(v.expr("Name", v.name(3 + i)) for i, x in enumerate(ex) if x)
                        rep.ob(rs[0][2][1] == ("arr", want), key, "does not evaluate exactly the exported definitions, in order", f.loc())
                        if fails:
                            rep.ob(r[0] == "adt" and r[2] == 1 and r[3][0][0] == "adt" and r[3][0][3] == (("sym", "why"),), key,
                                   "does not pass the trap on", f.loc())
                            continue
                        text = "".join("%s = %s\n" % (called(i), x) for i, x in zip([i for i, x in enumerate(ex) if x], [x[1] for x in vals]))
                        got = show(r[3][0], shown) if r[0] == "adt" and r[2] == 0 else None
                        rep.ob(got == text, key, "gives %r and not %r" % (got, text), f.loc())
        rep.floor("evaluated programs", n, 30)
        # how values are shown
        n, bad = 0, None
        for x in self.forms(2):
            it, ends = run([d(0, "e")], ("adt", RESULT, 0, (("arr", (x[0],)),)), self.runners[0])
            got = [show(r[3][0], shown) if r[0] == "adt" and r[2] == 0 else None for st, r in ends]
            n += 1
            if got != ["e = %s\n" % x[1]]:
                bad = bad or "%r is shown as %r" % (x[1], got[:1])
        rep.ob(bad is None, "values are shown with their constructors, fields and parentheses", bad or "", f.loc())
        rep.floor("forms of values", n, 100)
        # strings
        texts = {}
        for b in range(256):
            x = v.value("String", v.bytes(("arr", (("c", b),))))
            it, ends = run([d(0, "e")], ("adt", RESULT, 0, (("arr", (x,)),)), self.runners[0])
            got = [known(r[3][0]) if r[0] == "adt" and r[2] == 0 else None for st, r in ends]
            if len(got) != 1 or got[0] is None or not (got[0].startswith('e = "') and got[0].endswith('"\n')):
                rep.ob(False, "a string is shown in quotes", "byte %d is shown as %s" % (b, got), f.loc())
                return
            texts[b] = got[0][5:-2]
        rep.count("bytes shown", len(texts))
        bad = [(a, b) for a in texts for b in texts if a != b and texts[b].startswith(texts[a])]
        rep.ob(not bad, "two strings are never shown in the same way", "byte %d is %r and byte %d is %r" % (
            (bad[0][0], texts[bad[0][0]], bad[0][1], texts[bad[0][1]]) if bad else (0, "", 0, "")), f.loc())
        rep.ob(all(t and not t.startswith('"') and "\n" not in t for t in texts.values()), "a string ends with the quote",
               "the byte %d is %r" % next(((b, t) for b, t in texts.items() if not t or t.startswith('"') or "\n" in t), (0, "")), f.loc())
        two = v.value("String", v.bytes(("arr", (("c", 65), ("c", 10), ("c", 66)))))
        it, ends = run([d(0, "e")], ("adt", RESULT, 0, (("arr", (two,)),)), self.runners[0])
        rep.ob([known(r[3][0]) for st, r in ends] == ['e = "%s%s%s"\n' % (texts[65], texts[10], texts[66])], "a string is shown byte by byte", "",
               f.loc())

    def main_function(self):
        prog, rep, v = self.prog, self.rep, self.v
        f = self.api("core::result::Result<alloc::vec::Vec<u8>")
        S, I = v.ty("String"), v.ty("Int")
        fn = lambda ps, r: v.ty("Fn", ("arr", tuple(ps)), r)
        tys = [("right", fn([S], S)), ("takes an int", fn([I], S)), ("gives an int", fn([S], I)), ("takes two", fn([S, S], S)),
               ("gives a function", fn([S], fn([S], S))), ("no function", S), ("generic", v.ty("Abs", v.var(0), fn([S], S)))]
        err = "ticc::InterpretError"
        ei = {x["n"]: i for i, x in enumerate(prog.adts[err]["variants"])}
        outs = {"value": ("adt", RESULT, 0, (("arr", (v.value("String", v.bytes(("sym", "output"))),)),)),
                "trap": ("adt", RESULT, 1, (v.struct("ticc_eval::Trap", message=("sym", "why")),))}
        n = 0
        for k in range(4):
            for ex in product((None, "main", "other", "Main"), repeat=k):
                mains = [i for i, x in enumerate(ex) if x == "main"]
                for which in range(len(tys)) if mains else (0,):
                    for o, runner, verify in product(("value", "trap"), self.runners if k < 2 else self.runners[:1], (0, 1)):
                        if k == 3 and (o == "trap" or verify):
                            continue
                        n += 1
                        defs = [v.definition(v.name(i), tys[which if i == mains[-1] else (which + 1) % len(tys)][1] if x == "main" else tys[0][1],
                                             v.expr("Int", ("c", 5)), None if x is None else ("s", x)) for i, x in enumerate(ex)]
                        it = Eval(prog, self.generate, v.program(["n%d" % i for i in range(4)], defs), outs[o], self.checks)
                        opts = v.struct("ticc::codegen::Options", verify=("c", verify), optimize=("sym", "optimize"))
                        unit = v.struct(UNIT, options=opts)
                        key = "main, of %d definitions" % k
                        ends = [(st, it.deep(st, r)) for st, r in it.start(f, [unit, ("adt", RUNNER, self.runners.index(runner), ()),
                                                                               ("sym", "input")])]
                        if len(ends) != 1 or it.diverged:
                            rep.ob(False, key, "does not give one answer", f.loc())
                            continue
                        st, r = ends[0]
                        rs = [e for e in st.trace if e[0] == "runner"]
                        e = r[3][0] if r[0] == "adt" and r[2] == 1 else None
                        if not mains or tys[which][0] != "right":
                            want = "InvalidMain" if mains else "NoMain"
                            rep.ob(e is not None and e[0] == "adt" and e[2] == ei[want] and not rs, key + ": " + want,
                                   "is not an error where the last main %s" % (tys[which][0] if mains else "is missing"), f.loc())
                            continue
                        if len(rs) != 1:
                            rep.ob(False, key, "does not run the program once", f.loc())
                            continue
                        rep.ob(rs[0][1].split("::")[-2] == runner.lower(), "runner " + runner + " of main", "runs %s instead" % rs[0][1], f.loc())
                        rep.ob(rs[0][2][0] == it.program, key, "runs another program", f.loc())
                        xs = rs[0][2][1]
                        call = v.expr("Call", v.expr("Name", v.name(mains[-1])), ("arr", (v.expr("String", v.bytes(("sym", "input"))),)))
                        rep.ob(xs[0] == "arr" and len(xs[1]) == 1 and bare(xs[1][0]) == bare(call), key,
                               "does not apply the last exported main to the input: %s" % (xs,), f.loc())
                        if o == "trap":
                            rep.ob(e is not None and e[0] == "adt" and e[2] == ei["Trap"] and e[3][0][0] == "adt" and e[3][0][3] == (("sym", "why"),),
                                   key, "does not pass the trap on", f.loc())
                        else:
                            rep.ob(r[0] == "adt" and r[2] == 0 and bare(r[3][0]) == ("sym", "output"), key, "gives another output: %s" % (r,), f.loc())
        rep.floor("programs with and without main", n, 200)

    def names_of_runners(self):
        prog, rep = self.prog, self.rep
        ms = {x: [f for f in prog.fns.values() if f.trait_item == x and f.self_ty is not None and prog.adt_of(f.self_ty) == RUNNER]
              for x in ("core::str::traits::FromStr::from_str", "core::fmt::Display::fmt")}
        parse, print_ = one("runner from its name", ms["core::str::traits::FromStr::from_str"]), one("name of a runner", ms["core::fmt::Display::fmt"])
        for i, r in enumerate(self.runners):
            it = Text(prog)
            res = [it.deep(st, x) for st, x in it.start(parse, [("s", r.lower())])]
            rep.ob(res == [("adt", RESULT, 0, (("adt", RUNNER, i, ()),))], "the name of runner " + r, "stands for %s" % (res,), parse.loc())
            it = Text(prog)
            st = State()
            st.env[("out",)] = lit("")
            res = [known(it.load(s, ("out",), ())) for s, x in it.start(print_, [("adt", RUNNER, i, ()), ("ptr", ("out",), ())], st)]
            rep.ob(res == [r.lower()], "runner %s as text" % r, "is %s" % (res,), print_.loc())
        for w in ("", "Lambda", "interpreter", "jit "):
            it = Text(prog)
            res = [it.deep(st, x) for st, x in it.start(parse, [("s", w)])]
            rep.ob(len(res) == 1 and res[0][0] == "adt" and res[0][2] == 1, "another name is no runner", "%r is %s" % (w, res), parse.loc())


def prog_ty(prog, f, i):
    return prog.adt_of(f.locals[i])


def par(x):
    return "(%s)" % x[1] if x[2] else x[1]


def bare(t):
    """without the wrappers of strings and the conversions between them"""
    if t[0] == "adt" and t[1].endswith("::ByteString"):
        return bare(t[3][0])
    if t[0] == "call" and t[1] in ("index", "to_vec", "to_owned", "into", "from", "deref", "as_ref", "clone") and len(t) > 2:
        if len(t) == 3 or t[1] == "index" and "RangeFull" in str(t[3]):
            return bare(t[2])
    if t[0] == "adt":
        return (t[0], t[1], t[2], tuple(bare(x) for x in t[3]))
    if t[0] == "arr":
        return (t[0], tuple(bare(x) for x in t[1]))
    return t


# ---- the tool
class Tool(World):
    """what is done in another thread is done"""

    def std(self, name, d, args, st, t, fn, depth):
        if name in ("spawn", "spawn_scoped") and "thread" in d:
            out = []
            for s, x in self.apply(args[-1], [], st, depth):
                s.trace.append(("spawned", self.deep(s, args[0])))
                h = ("handle", x)
                out.append((s, ("adt", RESULT, 0, (h,)) if "Result<" in self.dst_type(t, fn)[:30] else h))
            return out
        if name == "join" and args and self.deref(st, args[0])[0] == "handle":
            return [(st, ("adt", RESULT, 0, (self.deref(st, args[0])[1],)))]
        return super().std(name, d, args, st, t, fn, depth)


def judge_tool(prog, rep):
    f = one("main of the tool", [f for f in prog.fns.values() if f.crate == "ticc.bin" and f.id == "ticc::main"])
    api = {x.id: short(x.id) for x in prog.fns.values() if x.crate == "ticc" and x.id.startswith(UNIT + "::") and x.kind == "fn"}
    acts = {"emit_ir", "interpret", "interpret_main"}
    if not acts <= set(api.values()):
        raise Anchor("what the tool can do")
    other = {x.id for x in prog.fns.values() if x.crate == "ticc.bin" and x.kind == "fn" and
             ("Resolver" in prog.tstr(x.locals[0]) or any("ticc::Diagnostic" in prog.tstr(y) for y in x.locals[1:x.nargs + 1]))}
    fields = [x["n"] for x in prog.adts["ticc::Opt"]["variants"][0]["f"]]
    it = Tool(prog, set(api) | other)
    it.loop_bound = 1
    ends = [(st, True) for st, v in it.start(f, [])] + [(s, False) for s, fn_, b in it.diverged]
    n = 0
    seen = set()
    for st, normal in ends:
        tr = st.trace
        opts = [e for e in tr if e[0] == "call" and short(str(e[1])) in ("from_args", "parse", "from_args_safe")]
        if not opts:
            continue
        if any(v != e for x, v in st.facts.items() for e in [settled(x)] if e is not None):
            continue
        n += 1
        O = lambda k: project(("call", short(opts[0][1])), (fields.index(k),))
        flag = lambda k: st.facts.get(O(k))
        given = lambda k: st.facts.get(("call", "discr", O(k)))
        val = lambda k: ("proj", ("proj", O(k), ("v", 1)), 0)
        ok = lambda x: ("proj", ("proj", x, ("v", 0)), 0)
        res = lambda x: st.facts.get(("call", "discr", x))
        dos = [e for e in tr if e[0] == "do" and api.get(e[1]) in acts]
        loc = f.loc()
        failed = [e for e in tr if e[0] == "call" and "process::exit" in str(e[1])]
        code = failed[-1][2][0] if failed else None
        rep.ob(normal or bool(failed), "the tool ends", "in a panic", loc)
        prints = [e for e in tr if e[0] == "call" and str(e[1]).endswith("_print")]
        writes = [e for e in tr if e[0] == "call" and str(e[1]).endswith("fs::write")]
        # what is compiled
        text = ("call", "read_to_string", O("input"))
        units = [e for e in tr if e[0] == "do" and api.get(e[1]) == "new"]
        if res(text) == 1:
            rep.ob(not units and not normal and code not in (None, ("c", 0)), "a file that cannot be read", "does not end in failure", loc)
            continue
        for e in units:
            rep.ob(stripped(e[2][0]) == stripped(ok(text)), "what is compiled", "is not the text of the input file", loc)
            oi = [x["n"] for x in prog.adts["ticc::codegen::Options"]["variants"][0]["f"]]
            o = e[2][1]
            rep.ob(o[0] == "adt" and o[3][oi.index("optimize")] == O("optimize"), "whether the program is optimized", "is not as asked for", loc)
            ver = o[3][oi.index("verify")] if o[0] == "adt" else None
            rep.ob(ver == ("un", "Not", O("no_verify")), "whether the program is verified", "is not as asked for", loc)
        # the mode
        if flag("check") == 1:
            seen.add("check")
            rep.ob(normal and not dos and not prints and not writes, "only checking", "does something else", loc)
            continue
        if flag("check") is None and not dos:
            continue
        rep.ob(len(dos) <= 1, "the tool", "does two things at once", loc)
        asked = {"emit_ir": flag("emit_ir") == 1, "interpret": flag("eval") == 1, "interpret_main": given("run") == 1}
        act = api[dos[0][1]] if dos else None
        if sum(asked.values()) == 0 and all(x is not None for x in (flag("emit_ir"), flag("eval"), given("run"))):
            rep.ob(act is None and not prints and not writes, "nothing asked for", "something is done", loc)
            seen.add("nothing")
            continue
        if act:
            rep.ob(asked[act], act, "is done without being asked for", loc)
        elif sum(asked.values()) and normal:
            rep.ob(False, [k for k in asked if asked[k]][0], "is not done though asked for", loc)
        # input
        if asked["interpret_main"] and not asked["interpret"] and not asked["emit_ir"]:
            p = val("run")
            reads = [e for e in tr if e[0] == "call" and str(e[1]).endswith("fs::read")]
            std = [e for e in tr if e[0] == "call" and short(str(e[1])) in ("read_to_end", "read_to_string", "read_all") and "stdin" in str(e[2])]
            isd = is_dash(st, p)
            rep.ob(isd is not None and (isd and std and not reads or not isd and reads and not std), "the input of main",
                   "is not taken from the place asked for", loc)
            src = None
            if reads:
                src = ("call", "read") + tuple(reads[0][2])
                rep.ob(stripped(reads[0][2][0]) == stripped(p), "the input of main", "is read from another file", loc)
            elif std:
                src = ("call", short(std[0][1])) + tuple(std[0][2])
            if src is not None and res(src) == 1:
                rep.ob(act is None and code not in (None, ("c", 0)), "input that cannot be read", "does not end in failure", loc)
                seen.add("no input")
                continue
            if act:
                a = dos[0][2][-1]
                rep.ob(reads and stripped(a) == stripped(ok(src)) or std and any("stdin" in str(y) for y in terms(a)), "the input of main",
                       "is not what was read", loc)
        if not act:
            continue
        seen.add(act)
        e = dos[0]
        if act != "emit_ir":
            r = e[2][1]
            if given("runner") == 1:
                rep.ob(r == val("runner"), act + ": runner", "is not the one asked for", loc)
            else:
                rep.ob(r[0] == "adt" and r[1] == RUNNER or r[:2] == ("call", "unwrap_or") and r[2] == O("runner"), act + ": runner", "is not one", loc)
        rets = [y for x in list(st.facts) + [a for q in tr if q[0] == "call" for a in q[2]] for y in terms(x) if y[0] == "ret" and y[2] == e[1]]
        ret = rets[0] if rets else None
        if given("stack") == 1 and act != "emit_ir":
            sizes = [q[2][-1] for q in tr if q[0] == "call" and short(str(q[1])) == "stack_size"]
            rep.ob(any(q[0] == "spawned" for q in tr) and len(sizes) == 1 and mega(sizes[0], val("stack")), act + ": stack",
                   "does not have the size asked for", loc)
            seen.add("stack")
        # outcome
        if act == "interpret_main" and res(ret) == 1 if ret else False:
            said = [q for q in tr if q[0] == "call" and str(q[1]).endswith("_eprint") and any(y == ret for a in q[2] for y in terms(a))]
            rep.ob(code not in (None, ("c", 0)) and bool(said) and not prints and not writes, act + ": an error", "does not end in failure with its message", loc)
            seen.add("main fails")
            continue
        if ret is None:
            rep.ob(False, act + ": result", "is dropped", loc)
            continue
        is_output = lambda a: any(y == ret or y[0] == "proj" and ret in terms(y) for y in terms(a))
        good = ok(ret) if act != "emit_ir" else ret
        if act == "interpret" and res(ret) == 1:
            good = ret
            seen.add("trap")
        right = lambda a: any(stripped(y) == stripped(good) for y in terms(a))
        outp = given("output")
        dash = is_dash(st, val("output")) if outp == 1 else (act != "emit_ir") if outp == 0 else None
        if writes:
            w = writes[0]
            rep.ob(len(writes) == 1 and not prints and right(w[2][1]), act + ": output", "is not what is written", loc)
            if good is not ret or act == "emit_ir":
                rep.ob(stripped(w[2][1]) == stripped(good), act + ": output", "is not written as it is", loc)
            rep.ob(outp == 1 and stripped(w[2][0]) == stripped(val("output")) and dash is False or
                   outp == 0 and act == "emit_ir" and any(y == O("input") for y in terms(w[2][0])) and stripped(w[2][0]) != O("input"),
                   act + ": output", "is written to another place", loc)
            wr = ("call", "write") + tuple(w[2])
            if res(wr) == 1:
                rep.ob(code not in (None, ("c", 0)), act + ": output that cannot be written", "does not end in failure", loc)
                seen.add("no output")
                continue
        elif prints:
            rep.ob(len(prints) == 1 and any(right(a) for a in prints[0][2]) and (dash is not False), act + ": output", "is not what is printed", loc)
            shown = [stripped(y[2]) for a in prints[0][2] for y in terms(a) if y[:2] == ("call", "new_display")]
            whole = stripped(good)
            rep.ob(good is ret and act != "emit_ir" or len(shown) == 1 and (shown[0] == whole or shown[0][:2] == ("call", "from_utf8_lossy") and
                                                                           stripped(shown[0][2]) == whole), act + ": output", "is not printed as it is", loc)
            if act != "interpret" or good is not ret:
                ts = [y for a in prints[0][2] for y in terms(a) if y[:2] == ("call", "new") and len(y) == 4 and y[2][0] == "s"]
                rep.ob(any(template(y[2][1])[-1:] == ["\n"] and len(template(y[2][1])) == 2 for y in ts), act + ": output", "is printed with other text", loc)
        else:
            rep.ob(False, act + ": output", "is dropped", loc)
        rep.ob(normal, act, "ends in failure though it succeeded", loc)
    rep.floor("paths of the tool", n, 60)
    rep.ob({"check", "nothing", "emit_ir", "interpret", "interpret_main", "no input", "no output", "main fails", "trap", "stack"} <= seen, "the tool",
           "does only %s" % sorted(seen), f.loc())


def stripped(t):
    """without conversions that keep the content"""
    while t[0] == "call" and t[1] in ("as_bytes", "as_str", "deref", "as_ref", "must_use", "clone", "into", "from", "to_owned", "as_path",
                                      "as_slice", "into_bytes", "new", "to_path_buf", "as_os_str") and len(t) == 3:
        t = t[2]
    return t


def settled(x):
    """what a comparison of paths gives whatever the arguments are"""
    op = {"Eq": 1, "eq": 1, "Ne": 0, "ne": 0}.get(x[1] if x[0] in ("bin", "call") else None)
    if op is None or len(x) != 4:
        return None
    a, b = stripped(x[2]), stripped(x[3])
    if a[0] == "s" and b[0] == "s":
        return int((a == b) == bool(op))
    for p, q in ((a, b), (b, a)):
        if p[0] == "s" and q[:2] == ("call", "with_extension") and len(q) == 4 and q[3][0] == "s" and not p[1].endswith("." + q[3][1]):
            return 1 - op
    return None


def is_dash(st, p):
    """whether the path is known to be `-`"""
    for x, v in st.facts.items():
        if x[0] == "bin" and x[1] in ("Eq", "Ne") and isinstance(v, int) and any(stripped(y) == stripped(p) for y in x[2:]) and "'-'" in str(x):
            return bool(v) == (x[1] == "Eq")
        if x[:2] in (("call", "eq"), ("call", "ne")) and isinstance(v, int) and any(stripped(y) == stripped(p) for y in x[2:]) and "'-'" in str(x):
            return bool(v) == (x[1] == "eq")
    return None


def mega(t, n):
    return any(y[0] in ("call", "bin") and y[1] in ("saturating_mul", "Mul", "wrapping_mul", "checked_mul") and n in y[2:] and
               ("c", 1048576) in y[2:] for y in terms(t))


def run(prog, rep):
    c = C(prog, rep)
    c.evaluation()
    c.main_function()
    c.names_of_runners()
    judge_tool(prog, rep)
