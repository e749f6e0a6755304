"""What the standard library's functions of one or two whole numbers give for numbers that are known."""
import re

SIZE = {"usize": 64, "isize": 64}
TYPE = re.compile(r"core::num::<impl ([ui])(8|16|32|64|128|size)>::(\w+)$")


def known(d, xs):
    """("number", n), ("option", n or None), ("pair", n, flag), ("bool", b); None: not known"""
    m = TYPE.search(d or "")
    if not m or not xs:
        return None
    signed, bits, name = m.group(1) == "i", 64 if m.group(2) == "size" else int(m.group(2)), m.group(3)
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    a = xs[0]
    b = xs[1] if len(xs) > 1 else None

    def wrap(n):
        n &= (1 << bits) - 1
        return n - (1 << bits) if signed and n > hi else n

    def div(p, q):
        n = abs(p) // abs(q)
        return n if (p < 0) == (q < 0) else -n

    two = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "pow": lambda: a ** b if b < 1000 else None,
           "add_signed": lambda: a + b, "add_unsigned": lambda: a + b, "sub_unsigned": lambda: a - b,
           "div": lambda: div(a, b) if b else None, "rem": lambda: a - b * div(a, b) if b else None,
           "div_euclid": lambda: (a // b if b > 0 else -(a // -b)) if b else None, "rem_euclid": lambda: a % abs(b) if b else None,
           "shl": lambda: a << b if 0 <= b < bits else None, "shr": lambda: a >> b if 0 <= b < bits else None}
    way, _, op = name.partition("_")
    if way in ("checked", "wrapping", "saturating", "overflowing", "unchecked") and b is not None and op in two:
        n = two[op]()
        if op in ("shl", "shr") and n is not None:
            return ("option" if way == "checked" else "number", wrap(n)) if way in ("checked", "wrapping") else None
        if way == "checked":
            return ("option", n if n is not None and lo <= n <= hi else None)
        if n is None:
            return None
        if way == "wrapping":
            return ("number", wrap(n))
        if way == "saturating":
            return ("number", min(max(n, lo), hi))
        if way == "overflowing":
            return ("pair", wrap(n), int(not lo <= n <= hi))
        return ("number", n) if lo <= n <= hi else None
    if b is None:
        u = a & (1 << bits) - 1
        one = {"unsigned_abs": lambda: abs(a), "abs": lambda: abs(a), "signum": lambda: (a > 0) - (a < 0), "count_ones": lambda: bin(u).count("1"),
               "count_zeros": lambda: bits - bin(u).count("1"), "leading_zeros": lambda: bits - u.bit_length(),
               "trailing_zeros": lambda: bits if not u else (u & -u).bit_length() - 1, "isqrt": lambda: None}
        if name in one:
            n = one[name]()
            return None if n is None else ("number", n)
        if name in ("is_power_of_two", "is_positive", "is_negative"):
            return ("bool", {"is_power_of_two": bin(u).count("1") == 1, "is_positive": a > 0, "is_negative": a < 0}[name])
        if name == "wrapping_neg":
            return ("number", wrap(-a))
        if name == "next_power_of_two":
            return ("number", 1 if a <= 1 else 1 << (a - 1).bit_length())
        return None
    if name == "abs_diff":
        return ("number", abs(a - b))
    if name == "pow" and b < 1000 and lo <= a ** b <= hi:
        return ("number", a ** b)
    if name in ("div_euclid", "rem_euclid") and b:
        return ("number", two[name]())
    if name == "div_ceil" and b > 0:
        return ("number", -(-a // b))
    if name == "next_multiple_of" and b > 0:
        n = -(-a // b) * b
        return ("number", n) if n <= hi else None
    if name == "is_multiple_of":
        return ("bool", a % b == 0 if b else a == 0)
    return None
