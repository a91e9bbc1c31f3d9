"""SuffixTrie (spec: SuffixWorld)."""
from itertools import islice

from vlib import enc
from vlib.core import Check, Mc, Rand

CAP = 5000


class Suffix:
    DEFAULT = {"op": "", "o": "a", "x": enc.item(None), "y": enc.item(None)}

    def __init__(self, cfg):
        import extra
        self.cls = extra.SuffixTrie
        self.ask = cfg["ask"]
        self.o = {}

    def do(self, op):
        k = op["op"]
        x = enc.unitem(op["x"])
        if k == "new":
            self.o[op["o"]] = self.cls(x)
            return enc.NONE
        o = self.o[op["o"]]
        if k == "has":
            return enc.r_bool(o.has_substring(x))
        if k == "count":
            return enc.r_int(o.count_pattern_occurrences(x))
        if k == "lca":
            return enc.r_val(o.get_lowest_common_ancestor(x, enc.unitem(op["y"])))
        if k == "array":
            return enc.r_items(o.to_suffix_array())
        if k == "lrs":
            return enc.r_items(o.get_longest_repeated_substring())
        if k == "lcs":
            return enc.r_items(o.get_longest_common_substring())
        if k == "iter":
            return enc.r_items(list(islice(iter(o), CAP)))
        if k == "to_list":
            return enc.r_items(o.to_list())
        if k == "len":
            return enc.r_int(len(o))
        return enc.r_int({"height": o.get_height, "depth": o.get_depth, "leaves": o.count_leaf_nodes}[k]())

    def project(self, op):
        return {}

    def text(self, rng, g):
        abc = rng.choice(["ab", "ab", "abc", "abcd", "a", "}{", "ab c", "aé∂b", "ab$", "0123456789", "AaBb", "\n\ta", "-a⟶", "e\u0301é", "😀a\u200d", "İiıI",
                          "\x7fa~", "abcdefghijklmnopqrstuvwxyz"])
        n = rng.choice([1, 2, 3, rng.randint(4, 12), rng.randint(8, g.get("len", 14))])
        if rng.random() < .08:                       # a telling word, again and again
            w = rng.choice(["ROOT", "ROOT", "None", "root", "--", "a b", "True", "10", "lcp", "Δ", "aA", " "])
            return "".join(rng.choice(abc) * rng.randint(0, 2) + w for _ in range(rng.randint(1, 3))) + rng.choice(abc + " ") * rng.randint(0, 2)
        c = rng.random()
        if c < .2:                                   # periodic
            p = "".join(rng.choice(abc) for _ in range(rng.randint(1, 4)))
            return (p * n)[:n] + "".join(rng.choice(abc) for _ in range(rng.randint(0, 2)))
        if c < .3:                                   # x y x
            p = "".join(rng.choice(abc) for _ in range(max(1, n // 3)))
            return p + "".join(rng.choice(abc) for _ in range(rng.randint(0, 3))) + p
        if c < .4:                                   # Fibonacci word
            a, b = abc[0], abc[-1]
            while len(a) < n:
                a, b = a + b, a
            return a
        return "".join(rng.choice(abc) for _ in range(n))

    def rand_op(self, rng, g, i, n):
        if i == 0:
            self.ts = {}
        o = rng.choice("aab")
        op = self.pick(rng, g, i, o)
        if op["op"] == "new" and "o" not in op:
            self.ts[o] = enc.unitem(op["x"])
        return dict({"o": o}, **op)

    def pick(self, rng, g, i, o):
        if o not in self.ts or rng.random() < .08:
            return {"op": "new", "x": enc.item(self.text(rng, g))}
        if i % 20 == 19 and rng.random() < .5:
            return {"op": "new", "o": "z", "x": rng.choice([enc.item(None), dict(enc.item(None), t="extra", p="Node"),
                                                            enc.item(3), enc.item(""), enc.item(["ab"])])}
        t = self.ts[o].replace("$", "")
        k = self.ask
        if k == "find":
            i, j = sorted(rng.randint(0, len(t)) for _ in range(2))
            p = t[i:j]
            c = rng.random()
            if c < .3:
                p += rng.choice(t + "z") if t else "z"
            elif c < .4 and p:
                p = p[:-1] + "z"
            elif c < .5:
                p = t[i:i + 1]
            elif c < .55:
                return {"op": rng.choice(["has", "count"]), "x": rng.choice([enc.item(None), enc.item(4), enc.item(["a"])])}
            f = rng.choice(["has", "count"])
            if p == "":
                f = "has"
            return {"op": f, "x": enc.item(p)}
        if k == "shape":
            return {"op": rng.choice(["len", "leaves", "height", "depth", "iter", "to_list"])}
        if k in ("array", "repeat"):
            if rng.random() < .5:
                return {"op": "new", "x": enc.item(self.text(rng, g))}
            return {"op": "array" if k == "array" else rng.choice(["lrs", "lcs"])}
        if rng.random() < .1:
            bad = rng.choice([enc.item(x) for x in (-1, len(t) + 1, len(t) + 5, "0", 0.0, True, None, -3)])
            x, y = enc.item(rng.randint(0, len(t))), bad
            return {"op": "lca", "x": y, "y": x} if rng.random() < .5 else {"op": "lca", "x": x, "y": y}
        i = rng.randint(0, len(t))
        j = rng.choice([a for a in range(len(t) + 1) if a != i] or [len(t) + 1])
        return {"op": "lca", "x": enc.item(i), "y": enc.item(j)}


AD = "checks.suffix:Suffix"
ASK = {"X01": "find", "X02": "array", "X03": "repeat", "X04": "lca", "X05": "shape"}


def mc(ask, n, alpha, **kw):
    return Mc("SuffixMC", """SPECIFICATION Spec
CONSTANTS Ask = "%s" MaxLen = %d Alpha = %d
INVARIANTS Inv EmitState
""" % (ask, n, alpha), emit=True, adapter=AD, acfg={"ask": ask}, **kw)


def build(pid):
    ask = ASK[pid]
    cfg = {"ask": ask}
    return Check(pid, "SuffixTrace",
                 [mc(ask, 7, 1, quick_only=True), mc(ask, 4, 2, quick_only=True), mc(ask, 4, 3, quick_only=True),
                  mc(ask, 10, 1, thorough_only=True), mc(ask, 6, 2, thorough_only=True), mc(ask, 6, 3, thorough_only=True)],
                 [Rand(AD, {}, 200, 60, cfg), Rand(AD, {"len": 30}, 24, 30, cfg), Rand(AD, {"len": 70}, 8, 20, cfg)],
                 lambda c: True)
