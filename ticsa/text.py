"""Value flow over texts that are put together from known pieces: a text is its pieces, each a literal or a term that
is shown. Numbers, characters and other texts that are known are literals."""
from .absint import short
from .front import OPTION, RESULT, NONE, some
from .known import Known

OK_ = ("adt", RESULT, 0, (("tup", ()),))
INTS = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128")


def lit(s):
    return ("text", (("s", s),) if s else ())


def pieces(v):
    if v[0] == "text":
        return v[1]
    if v[0] == "s":
        return (v,) if v[1] else ()
    return (("str", v),)


def join(*vs):
    out = []
    for v in vs:
        for p in pieces(v):
            if out and out[-1][0] == "s" and p[0] == "s":
                out[-1] = ("s", out[-1][1] + p[1])
            else:
                out.append(p)
    return ("text", tuple(out))


def known(v):
    """the text, if it is known"""
    if v[0] == "s":
        return v[1]
    if v[0] == "text" and all(p[0] == "s" for p in v[1]):
        return "".join(p[1] for p in v[1])
    return None


def show(v, names=None):
    """a text for comparison and for messages; terms as names(term)"""
    names = names or (lambda p: "{%s}" % (p,))
    return "".join(p[1] if p[0] == "s" else names(p) for p in pieces(v))


def template(s):
    """pieces of a format template: literals and None for each argument, or None if it says more"""
    if not s:
        return []
    out, i = [], 0
    raw = s.encode("latin-1", "replace")
    while i < len(raw):
        b = raw[i]
        i += 1
        if b == 0:
            return out
        if b < 0x80:
            out.append(raw[i:i + b].decode("utf-8", "replace"))
            i += b
        elif b == 0x80:
            n = raw[i] | raw[i + 1] << 8
            out.append(raw[i + 2:i + 2 + n].decode("utf-8", "replace"))
            i += 2 + n
        else:
            opts = [None, None, None, None]
            for k, w in enumerate((4, 2, 2, 2)):
                if b >> k & 1:
                    opts[k] = int.from_bytes(raw[i:i + w], "little")
                    i += w
            out.append(tuple(opts))
    return out


def quoted(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t") + '"'


class Text(Known):
    """texts: String, &str and formatters"""

    def volatile(self, v):
        return v[0] in ("arr", "text")

    def is_text(self, v):
        return v[0] in ("text", "s")

    def slot_of_text(self, st, a):
        if a[0] != "ptr":
            return None
        root, path = self.target(st, a)
        v = self.load(st, root, path)
        return (root, path, v) if self.is_text(v) else None

    def arg_type(self, t, fn, i=0):
        """the type of a generic argument of the called function, without references"""
        a = (t or {}).get("f", {}).get("a") or ()
        ts = [self.prog.tstr(x) for x in a if not self.prog.tstr(x).startswith("'")]
        return ts[i].lstrip("&").replace("'_ ", "").replace("'a ", "") if i < len(ts) else ""

    def display_of(self, how, adt):
        tr = "core::fmt::Display::fmt" if how == "display" else "core::fmt::Debug::fmt"
        fs = [f for f in self.prog.fns.values() if f.trait_item == tr and f.self_ty is not None and self.prog.adt_of(f.self_ty) == adt]
        return fs[0] if len(fs) == 1 and fs[0].blocks and not fs[0].derived else None

    def shown(self, st, how, v, ty, depth):
        """[(state, text)] of a value that is formatted without options"""
        v = self.deep(st, v)
        k = known(v)
        if k is not None:
            return [(st, lit(k if how == "display" else quoted(k)))]
        if v[0] == "text" and how == "display":
            return [(st, v)]
        if v[0] == "c":
            if ty in INTS:
                return [(st, lit(str(v[1])))]
            if ty == "bool":
                return [(st, lit("true" if v[1] else "false"))]
            if ty == "char" and how == "display":
                return [(st, lit(chr(v[1])))]
        if v[0] == "adt" and v[1] in self.prog.adts:
            f = self.display_of(how, v[1])
            if f is not None:
                self.nframe += 1
                root = ("buf", self.nframe)
                st.env[root] = lit("")
                return [(s2, self.load(s2, root, ())) for s2, r in self.run(f, [v, ("ptr", root, ())], st, depth + 1)]
        return [(st, ("text", (("shown", how, v),)))]

    def arguments(self, st, tpl, args, depth):
        """[(state, text)] of format arguments"""
        ps = template(tpl)
        live, i = [(st, lit(""))], 0
        for p in ps:
            if isinstance(p, str):
                live = [(s, join(x, lit(p))) for s, x in live]
                continue
            if p[3] is not None:
                i = p[3]
            if i >= len(args):
                return None
            a = args[i]
            i += 1
            nxt = []
            for s, x in live:
                if a[0] != "fmtarg":
                    nxt.append((s, join(x, ("text", (("shown", "?", a),)))))
                elif p[:3] == (None, None, None) and a[1] in ("display", "debug"):
                    nxt += [(s2, join(x, y)) for s2, y in self.shown(s, a[1], a[2], a[3], depth)]
                elif self.padded(a, p, self.deep(s, a[2])) is not None:
                    nxt.append((s, join(x, lit(self.padded(a, p, self.deep(s, a[2]))))))
                else:
                    nxt.append((s, join(x, ("text", (("shown", (a[1],) + p[:3], self.deep(s, a[2])),)))))
            live = nxt
        return live

    def padded(self, a, p, v):
        """a known number as it is formatted with options"""
        flags, width, prec = p[:3]
        flags = 0x60000020 if flags is None else flags
        if v[0] != "c" or a[3] not in INTS or prec is not None or a[1] not in ("display", "lower_hex", "upper_hex", "debug") or v[1] < 0:
            return None
        pre = "0x" if flags >> 23 & 1 and a[1].endswith("hex") else ""
        s = {"lower_hex": "%x", "upper_hex": "%X"}.get(a[1], "%d") % v[1]
        n = (width or 0) - len(pre)
        if flags >> 24 & 1:
            return pre + s.rjust(n, "0")
        fill, align = chr(flags & 0x1fffff), flags >> 29 & 3
        return pre + s if n <= len(s) else {0: s.ljust, 1: s.rjust, 2: s.center, 3: s.rjust}[align](n, fill) if not pre else None

    def put(self, st, a, text):
        """appends to the text behind a pointer"""
        s = self.slot_of_text(st, a)
        if s is None:
            return False
        self.store(st, s[0], s[1], join(s[2], text))
        return True

    def std(self, name, d, args, st, t, fn, depth):
        own = d.rsplit("::", 1)[0]
        U = ("tup", ())
        if "Argument" in own and name.startswith("new_") and len(args) == 1:
            return [(st, ("fmtarg", name[4:], args[0], self.arg_type(t, fn)))]
        if own.startswith("core::fmt::Arguments") and args:
            a = self.deref(st, args[0])
            if len(args) == 1 and a[0] == "s":
                return [(st, lit(a[1]))]
            b = self.deref(st, args[1]) if len(args) > 1 else ("sym", "?")
            if a[0] == "s" and b[0] == "arr":
                r = self.arguments(st, a[1], [self.deref(st, x) for x in b[1]], depth)
                if r is not None:
                    return r
        if "alloc::fmt::format" == d or d.endswith("fmt::format"):
            v = self.deep(st, args[0])
            if self.is_text(v):
                return [(st, v)]
        if name in ("new", "with_capacity") and "string::String" in own or name == "default" and \
                self.dst_type(t, fn).endswith("string::String"):
            return [(st, lit(""))]
        if name in ("write_fmt", "write_str", "push_str", "add_assign", "write_char", "push") and len(args) == 2 and \
                self.slot_of_text(st, args[0]):
            v = self.deep(st, args[1])
            if name in ("push", "write_char"):
                v = lit(chr(v[1])) if v[0] == "c" else ("text", (("shown", "display", v),))
            self.put(st, args[0], v)
            return [(st, OK_ if name.startswith("write") else U)]
        if name == "pad" and len(args) == 2 and self.slot_of_text(st, args[0]):
            self.put(st, args[0], self.deep(st, args[1]))
            return [(st, OK_)]
        if name == "fmt" and len(args) == 2 and self.slot_of_text(st, args[1]) and ("Display" in d or "Debug" in d):
            how = "display" if "Display" in d else "debug"
            out = []
            for s, x in self.shown(st, how, args[0], self.arg_type(t, fn), depth):
                self.put(s, args[1], x)
                out.append((s, OK_))
            return out
        if name == "to_string" and len(args) == 1:
            v = self.deref(st, args[0])
            if self.is_text(v):
                return [(st, join(v))]
            return self.shown(st, "display", v, self.arg_type(t, fn), depth)
        if args and self.is_text(self.deref(st, args[0])):
            v = self.deref(st, args[0])
            if name in ("to_owned", "into_owned", "into_string", "as_str", "as_bytes", "into_boxed_str", "to_vec", "into_bytes", "as_deref",
                        "borrow", "clone", "from", "into", "unwrap_or_default", "must_use") and len(args) == 1:
                return [(st, join(v))]
            if name == "add" and len(args) == 2:
                return [(st, join(v, self.deep(st, args[1])))]
            k = known(v)
            if name in ("len", "is_empty") and k is not None:
                n = len(k.encode())
                return [(st, ("c", n if name == "len" else int(not n)))]
            if name == "is_empty" and any(p[0] == "s" for p in pieces(v)):
                return [(st, ("c", 0))]
            if name == "len" and self.nonempty(v):
                return [(st, ("call", "len", v))]
            if name in ("chars", "bytes") and k is not None:
                return [(st, ("arr", tuple(("c", x) for x in (map(ord, k) if name == "chars" else k.encode()))))]
            if name in ("eq", "ne") and len(args) == 2:
                b = self.deep(st, args[1])
                j = known(b) if self.is_text(b) else None
                if k is not None and j is not None:
                    return [(st, ("c", int((k == j) == (name == "eq"))))]
            if name in ("contains", "starts_with", "ends_with") and len(args) == 2 and k is not None:
                b = self.deep(st, args[1])
                j = known(b) if self.is_text(b) else chr(b[1]) if b[0] == "c" else None
                if j is not None:
                    return [(st, ("c", int({"contains": j in k, "starts_with": k.startswith(j), "ends_with": k.endswith(j)}[name])))]
        if name == "encode_utf8" and args:
            c = self.deep(st, args[0])
            if c[0] == "c":
                return [(st, lit(chr(c[1])))]
            return [(st, ("text", (("shown", "display", c),)))]
        if name == "from" and len(args) == 1 and self.dst_type(t, fn) == "char":
            return [(st, self.deep(st, args[0]))]
        if name == "from_utf8" and args:
            v = self.deep(st, args[0])
            if v[0] == "arr" and all(x[0] == "c" for x in v[1]):
                b = bytes(x[1] for x in v[1])
                try:
                    return [(st, ("adt", RESULT, 0, (lit(b.decode()),)))]
                except UnicodeDecodeError:
                    return [(st, ("adt", RESULT, 1, (("sym", "invalid"),)))]
        if name in ("join", "concat") and args:
            v = self.deep(st, args[0])
            if v[0] == "arr" and all(self.is_text(x) for x in v[1]):
                sep = self.deep(st, args[1]) if name == "join" else lit("")
                out = lit("")
                for i, x in enumerate(v[1]):
                    out = join(out, sep if i else lit(""), x)
                return [(st, out)]
        if name in ("collect", "from_iter") and args and self.dst_type(t, fn).endswith("string::String") and self.concrete(args[0], st):
            out = []
            for s, es in self.elems(args[0], st, depth + 1):
                xs = [self.deep(s, e) for e in es]
                out.append((s, join(*[lit(chr(x[1])) if x[0] == "c" else x for x in xs])))
            return out
        return super().std(name, d, args, st, t, fn, depth)

    def nonempty(self, v):
        return any(p[0] == "s" for p in pieces(v))

    def fold(self, t, st):
        _, op, a, b = t
        if op in ("Eq", "Ne") and self.is_text(a) and self.is_text(b) and known(a) is not None and known(b) is not None:
            return ("c", int((known(a) == known(b)) == (op == "Eq")))
        if a[:2] == ("call", "len") and a[2][0] == "text" and b == ("c", 0):
            r = {"Gt": 1, "Ne": 1, "Eq": 0}.get(op)
            if r is not None:
                return ("c", r)
        return super().fold(t, st)
