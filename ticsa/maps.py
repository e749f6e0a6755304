"""Value flow over maps and sets with known keys: a map is the list of its pairs, a set the list of its elements."""
import re
from .front import OPTION, NONE, some, RESULT
from .text import Text, lit, known, join

MAP = re.compile(r"(HashMap|HashSet|BTreeMap|BTreeSet|hash::map|hash::set|btree::map|btree::set|hash_map|hash_set)")


class Maps(Text):
    def of_map(self, d, t):
        f = (t or {}).get("f") or {}
        return bool(MAP.search(d or "") or MAP.search(f.get("r") or ""))

    def concrete(self, it, st):
        v = self.deref(st, it)
        return v[0] == "adt" and v[1] == OPTION or super().concrete(it, st)

    def step(self, it, st, depth):
        v = self.deref(st, it)
        if v[0] == "adt" and v[1] == OPTION:
            return [(st, v[3][0], NONE)] if v[2] else [(st, None, v)]
        return super().step(it, st, depth)

    def std(self, name, d, args, st, t, fn, depth):
        if name in ("into_vec", "into_boxed_slice", "box_assume_init_into_vec_unsafe", "from") and args and not self.of_map(d, t):
            v = self.deref(st, args[0])
            while v[0] == "upd":
                v = v[3]
            if v[0] == "arr":
                return [(st, v)]
        if self.of_map(d, t):
            r = self.map(name, d, args, st, t, fn, depth)
            if r is not None:
                return r
        if name == "index" and len(args) == 2 and self.is_text(self.deref(st, args[0])):
            k, r = known(self.deref(st, args[0])), self.deep(st, args[1])
            b = self.bounds(r, len(k.encode())) if k is not None else None
            if b and 0 <= b[0] <= b[1] <= len(k.encode()):
                return [(st, lit(k.encode()[b[0]:b[1]].decode("utf-8", "replace")))]
        if name == "parse" and args and self.is_text(self.deref(st, args[0])):
            k = known(self.deref(st, args[0]))
            if k is not None and self.arg_type(t, fn) in ("u64", "usize", "u32"):
                ok = k.isdigit() and int(k) < 2 ** 64
                return [(st, ("adt", RESULT, 0, (("c", int(k)),)) if ok else ("adt", RESULT, 1, (("sym", "no number"),)))]
        return super().std(name, d, args, st, t, fn, depth)

    def map(self, name, d, args, st, t, fn, depth):
        U = ("tup", ())
        of_set = "Set" in d or "::set" in d or "Set" in ((t or {}).get("f", {}).get("r") or "")
        if name in ("new", "with_capacity", "default", "with_hasher", "with_capacity_and_hasher"):
            return [(st, ("arr", ()))]
        a = self.deref(st, args[0]) if args else ("sym", "?")
        if a[0] == "entry":
            return self.entry(name, a, args, st, t, depth)
        if name in ("from", "from_iter", "collect"):
            return None
        s = self.slot(st, args[0]) if args else None
        if s is None and a[0] == "arr":
            self.nframe += 1
            root = ("mapval", self.nframe)
            st.env[root] = a
            s = (root, (), a)
        if s is None:
            return None
        root, path, m = s
        xs = m[1]
        keys = [self.deep(st, x if of_set else x[1][0]) for x in xs]
        if name in ("clear",):
            self.store(st, root, path, ("arr", ()))
            return [(st, U)]
        if name in ("len", "is_empty"):
            return [(st, ("c", len(xs) if name == "len" else int(not xs)))]
        if name in ("iter", "into_iter", "keys", "values", "into_keys", "into_values", "iter_mut", "values_mut", "drain", "copied", "cloned"):
            if name == "drain":
                self.store(st, root, path, ("arr", ()))
            if of_set:
                return [(st, ("arr", xs))]
            k = 0 if "keys" in name else 1 if "values" in name else None
            if name.endswith("_mut"):
                at = lambda i: ("ptr", root, path + (i, 1))
                return [(st, ("arr", tuple(at(i) if k == 1 else ("tup", (x[1][0], at(i))) for i, x in enumerate(xs))))]
            return [(st, ("arr", xs if k is None else tuple(x[1][k] for x in xs)))]
        if name in ("extend",):
            out = []
            for s2, es in self.elems(args[1], st, depth + 1):
                for e in es:
                    e = self.deref(s2, e)
                    self.put_key(s2, root, path, self.deep(s2, e if of_set else e[1][0]), None if of_set else e[1][1])
                out.append((s2, U))
            return out
        if name in ("reserve", "shrink_to_fit"):
            return [(st, U)]
        if len(args) < 2:
            return None
        k = self.deep(st, args[1])
        i = keys.index(k) if k in keys else None
        if name == "insert":
            if of_set:
                self.put_key(st, root, path, k, None)
                return [(st, ("c", int(i is None)))]
            old = NONE if i is None else some(xs[i][1][1])
            self.put_key(st, root, path, k, args[2])
            return [(st, old)]
        if name in ("contains_key", "contains"):
            return [(st, ("c", int(i is not None)))]
        if name in ("get", "get_mut", "index", "index_mut"):
            if i is None:
                if name.startswith("index"):
                    self.diverged.append((st, fn, -1))
                    return []
                return [(st, NONE)]
            p = ("ptr", root, path + ((i,) if of_set else (i, 1)))
            return [(st, some(p) if name.startswith("get") else p)]
        if name in ("remove", "take"):
            if i is not None:
                self.store(st, root, path, ("arr", xs[:i] + xs[i + 1:]))
            if of_set and name == "remove":
                return [(st, ("c", int(i is not None)))]
            return [(st, NONE if i is None else some(xs[i] if of_set else xs[i][1][1]))]
        if name == "entry":
            return [(st, ("entry", root, path, k))]
        return None

    def put_key(self, st, root, path, k, v):
        xs = self.load(st, root, path)[1]
        keys = [self.deep(st, x if v is None else x[1][0]) for x in xs]
        e = k if v is None else ("tup", (k, v))
        if k in keys:
            i = keys.index(k)
            if v is not None:
                self.store(st, root, path, ("arr", xs[:i] + (e,) + xs[i + 1:]))
        else:
            self.store(st, root, path, ("arr", xs + (e,)))

    def entry(self, name, a, args, st, t, depth):
        _, root, path, k = a

        def at(s):
            for i, x in enumerate(self.load(s, root, path)[1]):
                if self.deep(s, x[1][0]) == k:
                    return ("ptr", root, path + (i, 1))
        here = at(st)
        if name in ("or_insert", "or_insert_with", "or_default"):
            if here is not None:
                return [(st, here)]
            vals = [(st, args[1])] if name == "or_insert" else list(self.apply(args[1], [], st, depth)) if name == "or_insert_with" else None
            if vals is None:
                return None
            out = []
            for s, v in vals:
                self.put_key(s, root, path, k, v)
                out.append((s, at(s)))
            return out
        if name == "and_modify":
            return [(s, a) for s, _ in self.apply(args[1], [here], st, depth)] if here is not None else [(st, a)]
        return None
