"""Structures of every kind made out of one another (spec: ConvWorld)."""
from itertools import islice

from checks.interplay import CLS, HEAPS, KINDS, LISTS, SEARCH, STORES, TRIES, short
from vlib import enc
from vlib.core import Check, Mc, Rand

CAP = 3000
SETS = SEARCH | {"skip"}
TARGETS = sorted(LISTS | SETS | HEAPS)
NUMS = list(range(-9, 30)) + [0.5, 2.0, -1.25, 3.0, 10 ** 12, -2 ** 60]
WORDS = ["a", "ab", "b", "bca", "ccc", "x\ny", "é"]


class Conv:
    DEFAULT = {"op": "", "o": "", "a": "", "k": "", "x": enc.item(None), "xs": [], "f": ""}
    ASKS = set()

    def __init__(self, cfg):
        self.o, self.k = {}, {}

    def make(self, k, xs, seed):
        import extra
        cls = getattr(extra, CLS[k])
        if k in HEAPS:
            return cls.heapify(xs)
        if k == "treap" and seed:
            return cls(xs, seed=len(seed))
        if k in TARGETS:
            return cls(xs)
        if k == "suffix":
            return cls("".join("ab1x"[int(x) % 4 if type(x) in (int, float) else len(str(x)) % 4] for x in xs) or "a")
        if k == "bin":
            def tree(i):
                return None if i >= len(xs) else [xs[i]] + [t for t in (tree(2 * i + 1), tree(2 * i + 2)) if t]
            return cls.parse(tree(0)) if xs else cls()
        o = cls()
        if k == "tree":
            for i, x in enumerate(xs):
                self.hang(o, extra.TreeNode(x), i)
        for x in xs if k != "tree" else ():
            if k == "stack":
                o.push(x)
            elif k in STORES:
                o.enqueue(x)
            else:
                o.insert(str(x))
        return o

    def hang(self, t, n, i):
        p = t._root
        if p is None:
            t._root = n
            return
        while i % 3 == 0 and p.get_children():
            p = p.get_children()[-1]
            i //= 3
        p.set_child(n)

    def do(self, op):
        import extra
        k, o = op["op"], op["o"]
        x = enc.unitem(op["x"])
        if k == "make":
            m = self.make(op["k"], [enc.unitem(i) for i in op["xs"]], op["f"])
            self.o[o], self.k[o] = m, op["k"]
            return enc.NONE
        if k == "conv":
            m = self.make(op["k"], self.o[op["a"]], op["f"])
            self.o[o], self.k[o] = m, op["k"]
            return enc.NONE
        s, sk = self.o[o], self.k[o]
        if k == "join":
            return enc.r_none(s.extend(self.o[op["a"]]))
        if k == "put":
            if sk == "tree":
                self.hang(s, extra.TreeNode(x), len(s))
                return enc.NONE
            return enc.r_none((s.add_end if sk in LISTS else s.insert)(x if sk not in TRIES else str(x)))
        if k == "cut":
            return enc.r_none(s.remove(x if sk not in TRIES else str(x)))
        if k == "empty":
            return enc.r_none(s.clear())
        if k == "drop":
            del self.o[o], self.k[o]
            return enc.NONE
        raise KeyError(k)

    def project(self, op):
        out = {}
        for n, o in self.o.items():
            k = self.k[n]
            it = [] if k in STORES else enc.items(list(islice(iter(o), CAP)))
            out[n] = {"k": k if type(o).__name__ == CLS[k] else "odd", "s": it,
                      "ord": enc.items(o.inorder_traverse()) if k in SEARCH else [],
                      "look": short("%d %s" % (len(o), repr(o) if len(it) < 40 else ""))}
        return out

    def rand_op(self, rng, g, i, n):
        if i == 0:
            self.pool = rng.choice([NUMS, NUMS, NUMS, [1, 2, 3], list(range(-400, 400)), NUMS + WORDS + [True]])
        names = sorted(self.o)
        any_ = lambda: enc.item(rng.choice(self.pool))
        if i < 2 or not names or rng.random() < .06:
            k = rng.choice(KINDS if rng.random() < .4 else TARGETS)
            m = rng.choice([0, 1, 2, 3, 5, 9, rng.randint(0, g.get("most", 20))])
            xs = enc.items([rng.choice(NUMS if k in SETS | HEAPS or k in TRIES else self.pool) for _ in range(m)])
            return {"op": "make", "o": rng.choice("abcd"), "k": k, "xs": xs, "f": "x" * rng.randrange(3)}
        o = rng.choice(names)
        k, r = self.k[o], rng.random()
        if r < .3:
            src = self.o[o]
            k2 = rng.choice(TARGETS + [k] * 6 if k in TARGETS else TARGETS)
            if k2 not in LISTS and k in LISTS and rng.random() < .7 and \
                    any(type(x) not in (int, float) for x in src):
                k2 = rng.choice(sorted(LISTS))
            return {"op": "conv", "o": rng.choice("abcd"), "a": o, "k": k2, "f": "x" * rng.randrange(3)}
        if k in STORES or k == "suffix" or k == "bin":
            return {"op": "drop", "o": o} if rng.random() < .3 else {"op": "conv", "o": rng.choice("abcd"), "a": o, "k": rng.choice(TARGETS)}
        num = enc.item(rng.choice([x for x in self.pool if type(x) in (int, float)]))
        if r < .36 and k in LISTS:
            peers = [p for p in names if self.k[p] == k and len(self.o[p]) + len(self.o[o]) < 150]
            if peers:
                return {"op": "join", "o": o, "a": rng.choice(peers)}
        if r < .62:
            return {"op": "put", "o": o, "x": any_() if k in LISTS or k == "tree" else num}
        if k == "tree":
            return {"op": "drop", "o": o}
        if r < .92:
            held = list(islice(iter(self.o[o]), 40))
            if held and k not in TRIES and rng.random() < .7:
                return {"op": "cut", "o": o, "x": enc.item(rng.choice(held))}
            return {"op": "cut", "o": o, "x": num}
        return {"op": rng.choice(["empty", "empty", "drop"]), "o": o}


AD = "checks.conv:Conv"


def mc(most, contents, **kw):
    return Mc("ConvMC", """SPECIFICATION Spec
CONSTANTS Most = %d Contents = %s
INVARIANTS Faithful Heaps Apart EmitState
""" % (most, contents), emit=True, adapter=AD, **kw)


def build(pid):
    return Check(pid, "ConvTrace", [mc(1, "{1, 2, 3, 5, 7}", quick_only=True), mc(2, "{5}", quick_only=True), mc(2, "{1, 2, 3, 4, 5, 6, 7}", thorough_only=True)],
                 [Rand(AD, {}, 600, 60), Rand(AD, {"most": 120}, 60, 40)], lambda c: True)
