"""SkipList (spec: SkipWorld)."""
import random
from itertools import islice

from vlib import enc
from checks.pools import EXACT, FORMS, INF, given, size, twin
from vlib.core import Check, Mc, Rand

CAP = 3000


class Skip:
    DEFAULT = {"op": "", "o": "a", "a": "", "ti": "int", "i": 0, "x": enc.item(None), "xs": [],
               "f": "", "h": 0}
    ASKS = {"get", "contains", "len", "is_empty", "height", "iter", "to_list"}

    def __init__(self, cfg):
        import extra
        self.x = extra
        self.o = {}
        self.heads = 0
        self.bias = None
        self.coin = random.Random(7)
        self.choice = random.choice
        random.choice = self.flip

    def flip(self, seq):
        """The coin: scripted by the op's h, biased, or left alone."""
        if list(seq) != ["head", "tail"]:
            return self.choice(seq)
        if self.heads is not None:
            self.heads -= 1
            return "head" if self.heads > 0 else "tail"
        if self.bias is not None:
            return "head" if self.coin.random() < self.bias else "tail"
        return self.choice(seq)

    def do(self, op):
        k = op["op"]
        self.heads = op["h"] or None
        if k == "new":
            f = op["f"]
            if f == "noniter":
                src = 5
            elif f == "obj":
                src = self.o[op["a"]]
            else:
                with given(f, [enc.unitem(i) for i in op["xs"]]) as src:
                    self.o[op["o"]] = self.x.SkipList(src)
                return enc.NONE
            self.o[op["o"]] = self.x.SkipList(src)
            return enc.NONE
        o = self.o[op["o"]]
        x = enc.unitem(op["x"])
        i = {"int": op["i"], "bool": True, "float": 1.0, "str": "1", "none": None,
             "slice": slice(0, 1)}[op["ti"]]
        if k == "insert":
            return enc.r_none(o.insert(x))
        if k == "remove":
            return enc.r_none(o.remove(x))
        if k == "del":
            del o[i]
            return enc.NONE
        if k == "get":
            return enc.r_val(o[i])
        if k == "contains":
            return enc.r_bool(x in o)
        if k == "len":
            return enc.r_int(len(o))
        if k == "is_empty":
            return enc.r_bool(o.is_empty())
        if k == "height":
            return enc.r_int(o.get_height())
        if k == "iter":
            return enc.r_items(list(islice(iter(o), CAP)))
        if k == "to_list":
            return enc.r_items(o.to_list())
        if k == "clear":
            return enc.r_none(o.clear())
        if k == "drop":
            del self.o[op["o"]]
            return enc.NONE
        raise KeyError(k)

    def project(self, op):
        return {n: self.view(o) for n, o in self.o.items()}

    def view(self, o):
        it = enc.items(list(islice(iter(o), CAP)))
        v = {"len": len(o), "it": it, "lv": [], "down": "na"}
        lists = getattr(o, "_level_lists", None)
        if lists is None:
            return v
        levels, nodes, ok = [], [], True
        for ll in lists:
            cur, ns = ll._head, []
            while cur is not None and len(ns) < CAP:
                ns.append(cur)
                cur = cur.get_next()
            ok = ok and bool(ns) and ns[0].get_data() == float("-inf") and len(ll) == len(ns)
            levels.append(enc.items([n.get_data() for n in ns[1:]]))
            nodes.append(ns)
        for i, ns in enumerate(nodes):
            for n in ns:
                d = n.get_down()
                if i == 0:
                    ok = ok and d is None
                else:
                    ok = ok and d is not None and d.get_data() == n.get_data() \
                        and any(d is m for m in nodes[i - 1])
        ok = ok and len(lists) == o.get_height()
        v["lv"], v["down"] = levels, "ok" if ok else "bad"
        return v

    def rand_op(self, rng, g, i, n):
        if i == 0:
            self.heads = None
            self.bias = rng.choice([None, .2, .5, .7, .85, .05, .93] + [0] * (g.get("start", 0) > 100))
            self.coin = random.Random(rng.random())
            c = 2 if g.get("start", 0) > 200 else rng.randrange(5)
            self.pool = [list(range(-4, 8)), [x / 2 for x in range(-4, 9)] + list(range(-2, 4)),
                         [rng.randint(-1000, 1000) / rng.choice([1, 1, 2])
                          for _ in range(max(120, 2 * g.get("start", 0)))],
                         EXACT + [INF], [0, 0.0, 1, 1.0, -1, float("inf"), 2.5, 10 ** 8, -10 ** 8, 3, 4, 5]][c]
        if i < 1 or rng.random() < .015:
            return self.r_new(rng, g)
        o = rng.choice(list(self.o))
        if len(self.o) > 3:
            return {"op": "drop", "o": o}
        L = len(self.o[o])
        x = rng.choice(self.pool)
        x = enc.item(twin(rng, x) if rng.random() < .1 else x)
        r = rng.random()
        if r < g.get("ins", .42):
            return {"op": "insert", "o": o, "x": x}
        if r < .6:
            return {"op": "remove", "o": o, "x": x}
        if r < .68 and L:
            return {"op": "del", "o": o, "i": rng.choice([0, L - 1, rng.randrange(L)])}
        if r < .76 and L:
            return {"op": "get", "o": o, "i": rng.choice([0, L - 1, rng.randrange(L)])}
        if r < .86:
            return {"op": "contains", "o": o, "x": x}
        if r < .93:
            return {"op": rng.choice(["len", "is_empty", "height", "iter", "to_list"]), "o": o}
        if r < .94:
            return {"op": "clear", "o": o}
        bad = rng.choice([enc.item(None), dict(enc.item(None), t="extra", p="Node"), enc.item("1"),
                          enc.item(True), enc.item([1])])
        c = rng.randrange(5)
        if c == 0:
            return {"op": rng.choice(["get", "del"]), "o": o,
                    "ti": rng.choice(["bool", "float", "str", "none", "slice"])}
        if c == 1:
            return {"op": rng.choice(["get", "del"]), "o": o, "i": rng.choice([-1, -L - 1, L, L + 1])}
        if c == 2:
            return {"op": rng.choice(["insert", "insert", "remove"]), "o": o, "x": bad}
        if c == 3:
            return {"op": rng.choice(["insert", "remove", "contains"]), "o": o, "x": enc.item(float("-inf"))}
        xs = [enc.item(rng.choice(self.pool)) for _ in range(rng.randint(0, 4))]
        xs.insert(rng.randint(0, len(xs)), bad)
        return rng.choice([{"op": "new", "o": "z", "f": "noniter"}, {"op": "new", "o": "z", "xs": xs}])

    def r_new(self, rng, g):
        name = rng.choice("abc") if self.o else "a"
        if self.o and rng.random() < .5:
            return {"op": "new", "o": name, "f": "obj", "a": rng.choice(list(self.o))}
        f = rng.choice(FORMS + ["none"])
        m = 0 if f == "none" else size(rng, g.get("start", 12))
        return {"op": "new", "o": name, "f": f, "xs": enc.items([rng.choice(self.pool) for _ in range(m)])}


AD = "checks.skip:Skip"


def mc(keys, h, **kw):
    return Mc("SkipMC", """SPECIFICATION Spec
CONSTANTS Keys = %d MaxH = %d
VIEW View
INVARIANTS Shape SearchFinds Undo Refusals EmitState
""" % (keys, h), emit=True, adapter=AD, **kw)


def build(pid):
    return Check(pid, "SkipTrace", [mc(3, 3, quick_only=True), mc(4, 3, thorough_only=True)],
                 [Rand(AD, {}, 250, 90), Rand(AD, {"start": 120}, 40, 60), Rand(AD, {"ins": .52}, 30, 250),
                  Rand(AD, {"start": 500}, 6, 30)],
                 lambda c: True)
