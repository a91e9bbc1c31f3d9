"""Encoding of Python values into the uniform records the TLA+ specs read.

item   = {t, v, p}    t: kind of value, v: sequence of small ints, p: exact type
result = {tag, s, n, l}
All fields are always present and always have the same type, so that TLC can
compare any two of them without a type error.
"""
import math
from fractions import Fraction

LIMB = 1 << 20
SCALE = 4


HUGE = 1 << 30


def num_v(x):
    """The number as a sequence of small integers, such that sequences compare
    lexicographically exactly as the numbers do. In quarter units: the two
    limbs of the whole part (huge numbers: a mark, the number of limbs, the
    limbs), and after them the limbs of the rest, if there is one."""
    f = Fraction(x) * SCALE
    n = math.floor(f)
    return limbs(n) + rest(f - n)


def rest(r):
    out = []
    while r:
        r *= LIMB
        out.append(math.floor(r))
        r -= out[-1]
        if len(out) > 60:
            raise ValueError("not a binary fraction")
    return out


def limbs(n):
    hi, lo = n // LIMB, n % LIMB
    if -HUGE < hi < HUGE:
        return [hi, lo]
    m, out = (n if n > 0 else -n - 1), []
    while m:
        out.insert(0, m % LIMB)
        m //= LIMB
    if n > 0:
        return [HUGE, len(out)] + out
    return [-HUGE, -len(out)] + [LIMB - 1 - d for d in out]


def unlimb(v):
    if abs(v[0]) < HUGE:
        n, k = v[0] * LIMB + v[1], 2
    else:
        k, n = 2 + abs(v[1]), 0
        for d in v[2:k]:
            n = n * LIMB + (d if v[0] > 0 else LIMB - 1 - d)
        if v[0] < 0:
            n = -n - 1
    r = Fraction(0)
    for d in reversed(v[k:]):
        r = (r + d) / LIMB
    return (n + r) / SCALE


def item(x):
    ty = type(x)
    if x is None:
        return {"t": "none", "v": [], "p": "NoneType"}
    if ty is bool or ty is int or ty is float:
        if x != x:
            return {"t": "nan", "v": [], "p": "float"}
        if ty is float and x in (math.inf, -math.inf):
            return {"t": "n", "v": [HUGE + 1 if x > 0 else -HUGE - 1], "p": "float"}
        return {"t": "n", "v": num_v(x), "p": ty.__name__}
    if ty is str:
        return {"t": "s", "v": [ord(c) for c in x], "p": "str"}
    if ty is Thing:
        same = THINGS.get((x.key, x.serial)) is x
        return {"t": "u", "v": [x.key], "p": f"Thing {x.serial}" if same else "another Thing"}
    if is_extra(x):
        return {"t": "extra", "v": [], "p": ty.__name__}
    try:
        code = [ord(c) % 65536 for c in repr(x)[:40]]
    except Exception:
        code = [0]
    return {"t": "o", "v": code, "p": ty.__name__}


def items(xs):
    return [item(x) for x in xs]


def is_extra(x):
    try:
        from extra.interface import Extra
    except Exception:
        return False
    return isinstance(x, Extra)


THINGS = {}


class Thing:
    """An object of the user's own: equal to those with the same key, but an
    object in its own right; it has no hash, no order, and some are false."""
    __hash__ = None

    def __init__(self, key, serial):
        self.key, self.serial = key, serial
        THINGS[key, serial] = self

    def __eq__(self, other):
        return self.key == other.key if type(other) is Thing else NotImplemented

    def __bool__(self):
        return self.key % 3 != 0

    def __len__(self):
        return self.key

    def __repr__(self):
        return f"<{self.key}:{self.serial}>"


def thing(key, serial):
    t = THINGS.get((key, serial))
    return Thing(key, serial) if t is None else t


def unitem(it):
    """The Python value a spec item stands for (the inverse of item())."""
    t, v, p = it["t"], it["v"], it["p"]
    if t == "none":
        return None
    if t == "n":
        if len(v) == 1:
            return math.inf if v[0] > 0 else -math.inf
        f = unlimb(v)
        if p == "bool":
            return bool(f)
        if p == "float":
            return float(f)
        return int(f)
    if t == "s":
        return "".join(map(chr, v))
    if t == "nan":
        return math.nan
    if t == "extra":
        import extra
        if p in ("Node", ""):
            from extra.lists.linked_list import Node
            return Node(1)
        return getattr(extra, p)()
    if t == "u":
        return thing(v[0], int(p.split()[1]))
    if t == "o":
        return eval("".join(map(chr, v)), 
                    {"__builtins__": {"frozenset": frozenset, "range": range, "Ellipsis": ...}}, {})
    raise ValueError(it)


def res(tag, s="", n=0, l=()):
    return {"tag": tag, "s": s, "n": n, "l": list(l)}


NONE = res("none")


def r_val(x):
    """Result for a call that returns one element."""
    if x is None:
        return res("none")
    return res("val", l=[item(x)])


def r_bool(x):
    if x is True or x is False:
        return res("bool", n=int(x))
    return res("odd", s=type(x).__name__)


def r_int(x):
    if type(x) is int:
        return res("int", n=max(-(1 << 30), min(1 << 30, x)))
    return res("odd", s=type(x).__name__)


def r_items(xs):
    if type(xs) is not list:
        return res("odd", s=type(xs).__name__)
    out = res("list", n=len(xs), l=items(xs))
    spoil(xs)
    return out


ASKED = [0]


def spoil(xs):
    """An answer is the caller's, who changes it now and then."""
    ASKED[0] += 1
    if ASKED[0] * 7 % 5 < 2:
        xs.reverse()
        xs.append(...)


def r_none(x):
    return res("none") if x is None else res("odd", s=type(x).__name__)


def exc_name(e):
    for k in type(e).__mro__:
        if k.__module__ == "builtins":
            return k.__name__
    return type(e).__name__
