"""Pools of values the random histories draw their elements from."""


import collections
import contextlib

from vlib import enc

INF = float("inf")
FORMS = ["list", "list", "tuple", "gen", "iter", "map", "deque", "sub", "own", "ll", "dll", "cll"]
# numbers that a detour through floats, rounding or narrow integers would confuse
EXACT = [2 ** 53, 2 ** 53 + 1, 2 ** 53 - 1, float(2 ** 53), -2 ** 53, -2 ** 53 - 1, 10 ** 20, 10 ** 20 + 1, -10 ** 20,
         2 ** 31, 2 ** 31 - 1, 2 ** 32, -2 ** 31, 0.1, 0.2, 0.3, 0.1 + 0.2, 1e-9, -1e-9, 0, -0.0, 1e300, -1e300, .999999, 1]


class Sub(list):
    """A list of the caller's own kind."""


class Own:
    """Something that can only be iterated over."""

    def __init__(self, v):
        self.v = v

    def __iter__(self):
        return iter(self.v)


def valid(v):
    from extra.interface import Extra
    return all(x is not None and not isinstance(x, Extra) for x in v)


@contextlib.contextmanager
def given(form, v):
    """The values v as an iterable of some form, which has them afterwards as
    well, until its owner changes it."""
    import extra
    if form == "none":
        src = None
    elif form in ("ll", "dll", "cll"):
        src = {"ll": extra.LinkedList, "dll": extra.DoublyLinkedList, "cll": extra.CircularLinkedList}[form](v) if valid(v) else list(v)
    else:
        src = {"tuple": tuple, "gen": lambda v: (x for x in v), "iter": iter, "dict": dict.fromkeys, "sub": Sub, "own": Own,
               "map": lambda v: map(lambda x: x, v), "deque": collections.deque}.get(form, list)(v)
    before = list(src) if form not in ("none", "gen", "iter", "map") else None
    yield src
    if before is not None:
        after = list(src)
        if len(after) != len(before) or any(a is not b for a, b in zip(after, before)):
            raise SourceChanged("the given values were changed")
    if isinstance(src, list):
        src.reverse()
        src.append(...)
    elif form == "deque":
        src.clear()
    elif form in ("ll", "dll", "cll") and not isinstance(src, list):
        src.add_front("mine")
        src.remove_end()


class SourceChanged(Exception):
    """The iterable a structure was built from was changed by that."""


def size(rng, most):
    """How many values to start with."""
    if most > 20 and rng.random() < .6:
        return rng.randint(most // 2, most)
    return rng.choice([0, 1, 3, rng.randint(0, most)])


def twin(rng, x, flags=False):
    """An equal value of another type, if there is one."""
    if type(x) not in (int, float, bool) or x != x or x in (INF, -INF) or int(x) != x:
        return x
    ts = [t for t in (int, float) + (bool,) * (flags and x in (0, 1)) if t is not type(x) and abs(x) < 10 ** 300 and t(x) == x]
    return rng.choice(ts)(x) if ts else x


def sparse(rng, most):
    """As few nodes as an AVL tree of that height can have."""
    def grow(d):
        if d < 0:
            return None
        t = [grow(d - 1), grow(d - 2)]
        return t[::-1] if turn == 1 or (turn == 2 and rng.random() < .5) else t

    turn, d, n = rng.randrange(3), 0, [1, 2]
    while n[-1] <= most and d < 8:
        n, d = [n[1], n[0] + n[1] + 1], d + 1
    return grow(rng.choice([d, d, d - 1, max(d - 2, 1)]))


def drilled(rng, most):
    """Trees whose balancing a removal disturbs at many levels."""
    def perfect(d):
        return None if d < 0 else [perfect(d - 1), perfect(d - 1)]

    return perfect(rng.randint(3, 6)) if rng.random() < .4 else sparse(rng, most)


def shape(rng, most):
    """A binary tree without values, [left, right] or None, of a telling shape."""
    def perfect(d):
        return None if d < 0 else [perfect(d - 1), perfect(d - 1)]

    def complete(n, i=0):
        return None if i >= n else [complete(n, 2 * i + 1), complete(n, 2 * i + 2)]

    def vine(n, side):
        t = None
        for k in range(n):
            s = side if side in (0, 1) else k % 2 if side == 2 else rng.randrange(2)
            t = [t, None] if s == 0 else [None, t]
        return t

    def strict(n):
        if n < 3:
            return [None, None]
        k = rng.randrange(1, n - 1)
        return [strict(k), strict(n - 1 - k)]

    def some(n):
        if n < 1:
            return None
        k = rng.randint(0, n - 1)
        return [some(k), some(n - 1 - k)]

    def leafward(t):
        while True:
            ks = [k for k in (0, 1) if t[k] is not None]
            if not ks or (len(ks) == 1 and rng.random() < .3):
                return t
            k = rng.choice(ks)
            if t[k] == [None, None] and rng.random() < .7:
                return t
            t = t[k]

    h = max(most.bit_length() - 2, 1)
    c = rng.randrange(9)
    if c <= 1:
        t = perfect(rng.randint(1, h))
    elif c == 2:
        t = complete(rng.randint(1, most))
    elif c == 3:
        a = rng.randint(0, min(most // 2, 14))
        t = [vine(a, rng.randrange(4)), vine(max(a + rng.randint(-3, 3), 0), rng.randrange(4))]
    elif c == 4:
        t = strict(rng.randint(1, most))
    elif c == 5:
        t = [some(rng.randint(0, most // 2)), some(rng.randint(0, most // 2))]
    elif c == 8:
        return sparse(rng, most)
    elif c == 6:
        t = [perfect(rng.randint(-1, h - 1)), perfect(rng.randint(-1, h - 1))]
    else:
        t = vine(rng.randint(1, min(most, 30)), rng.randrange(4))
    if rng.random() < .5:
        for _ in range(rng.choice([1, 1, 2])):
            n = leafward(t)
            k = rng.randrange(2)
            n[k] = [None, None] if n[k] is None else None
    return t


def pool(rng, kind):
    if kind == "tiny":
        return [0, 1]
    if kind == "ints":
        return list(range(-3, 8))
    if kind == "wide":
        return [rng.randint(-500, 500) for _ in range(60)]
    if kind == "mixed":
        return [0, 1, 1.0, True, False, 0.0, "", "a", "A", "0", "x\ny", "\n", -1, 2.5, "été",
                "line\\n", 10 ** 6, -10 ** 9,
                10 ** 20, 0.1, "ab" * 30, "日本", "\t", "\r\n", "q" * 130 + "\n" + "r", "\n\n", "a\n\nb\n"]
    if kind == "objects":
        return [(), (1, 2), [], [1], {}, {"a": 1}, 0, "", b"", b"x", (None,), 1.5, {1: [2]}, "t", 1j, frozenset(), range(3), "x" * 80, Ellipsis, 2 ** 64, INF]
    if kind == "things":
        return [enc.thing(k, s) for k in range(4) for s in range(3)] + [enc.thing(3, 3), 0, "t", 3]
    if kind == "words":
        return ["a", "b", "ab", "abc", "", " ", "zz", "Z", "a\nb", "é", "a "]
    if kind == "nums":
        return [0, 1, 2, 3, -1, -2, 0.5, 1.0, 2.0, -0.5, 7, 100, 3.25, -50]
    raise ValueError(kind)
