"""Value flow of evaluators: known closures behind pointers to what they implement, trait objects, counted pointers to themselves."""
from .mir import Anchor
from .front import NONE, RESULT, some
from .heap import Heap

M64 = (1 << 64) - 1
WRAP = {"wrapping_add": lambda a, b: a + b, "wrapping_sub": lambda a, b: a - b, "wrapping_mul": lambda a, b: a * b}


class Machine(Heap):
    def callee_value(self, st, v):
        v = self.deref(st, v)
        while v[0] == "rc":
            v = self.deref(st, st.env[v[1]])
        return v

    def model(self, name, callee, args, st, t, fn):
        if name in WRAP and len(args) == 2:
            a, b = (self.deep(st, x) for x in args)
            if a[0] == b[0] == "c":
                return [(st, ("c", WRAP[name](a[1], b[1]) & M64))]
        if name in ("checked_div", "checked_rem") and len(args) == 2:
            a, b = (self.deep(st, x) for x in args)
            if a[0] == b[0] == "c":
                return [(st, NONE if not b[1] else some(("c", a[1] // b[1] if name == "checked_div" else a[1] % b[1])))]
            # what it gives for nothing is the subject of C03
            return [(st, some(("call", name, a, b)))]
        if name == "new_cyclic" and len(args) == 1:
            self.nframe += 1
            root = ("cyclic", self.nframe)
            st.env[root] = ("rc", root)
            self.nframe += 1
            weak = ("weak", self.nframe)
            st.env[weak] = ("rc", root)
            out = []
            for s, v in self.apply(args[0], [("ptr", weak, ())], st, len(st.frames), t):
                s.env[root] = v
                out.append((s, ("rc", root)))
            return out
        if name in ("upgrade", "downgrade") and len(args) == 1:
            v = self.deref(st, args[0])
            if v[0] == "rc":
                return [(st, some(v) if name == "upgrade" else v)]
        if name == "default" and not args and t is not None and self.dst_type(t, fn) in ("usize", "u64", "u32"):
            return [(st, ("c", 0))]
        if name in ("try_into", "try_from") and len(args) == 1 and self.deref(st, args[0])[0] == "arr":
            return [(st, ("adt", RESULT, 0, (self.deref(st, args[0]),)))]
        if name in ("collect", "from_iter") and args and t is not None and self.concrete(args[0], st) and self.dst_type(t, fn).startswith(RESULT):
            out = []
            for s, es in self.elems(args[0], st, len(st.frames) + 1):
                es = [self.deref(s, e) for e in es]
                if not all(e[0] == "adt" and e[1] == RESULT for e in es):
                    return None
                bad = [e for e in es if e[2] == 1]
                out.append((s, bad[0] if bad else ("adt", RESULT, 0, (("arr", tuple(e[3][0] for e in es)),))))
            return out
        if callee not in self.prog.fns and t is not None and args and args[0][0] == "ptr" and t["f"].get("tr"):
            # a method of a trait object that is known
            ms = [x for x in self.prog.impl_methods(callee) if x.kind == "fn"]
            if ms:
                p = args[0]
                v = self.load(st, p[1], p[2])
                while v[0] in ("ptr", "rc"):
                    p = v if v[0] == "ptr" else ("ptr", v[1], ())
                    v = self.load(st, p[1], p[2])
                if v[0] == "adt":
                    ms = [x for x in ms if x.id.startswith("<" + v[1] + " as ") or x.id.startswith("<" + v[1] + "<")]
                    if len(ms) == 1:
                        return list(self.run(ms[0], [p] + list(args[1:]), st, len(st.frames)))
        return super().model(name, callee, args, st, t, fn)


def bounded(f, seconds=100):
    """f, given up after so much computing: of what then is left, nothing is known"""
    import signal

    def over(*_):
        raise Anchor("more ways to go than can be followed")

    def g(x):
        was = signal.signal(signal.SIGVTALRM, over)
        signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
        try:
            return f(x)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, was)
    return g


def lean():
    """in a process that follows programs: one that takes ever more memory is given up, not the others with it"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
