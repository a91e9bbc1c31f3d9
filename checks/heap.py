"""MinHeap and MaxHeap (spec: HeapWorld)."""
from itertools import islice

from vlib import enc
from checks.pools import EXACT, FORMS, INF, given, size, twin
from vlib.core import Check, Mc, Rand

CAP = 2000


class Heap:
    DEFAULT = {"op": "", "o": "a", "a": "", "x": enc.item(None), "xs": [], "f": ""}
    ASKS = {"min", "max", "contains", "len", "is_empty", "iter", "to_list"}

    def __init__(self, cfg):
        import extra
        self.cls = extra.MinHeap if cfg["kind"] == "min" else extra.MaxHeap
        self.o = {}

    def do(self, op):
        k, f = op["op"], op["f"]
        if k == "new":
            if f in ("noniter", "obj"):
                h = self.cls.heapify(5 if f == "noniter" else self.o[op["a"]])
            else:
                v = [enc.unitem(i) for i in op["xs"]]
                if f == "ctor":
                    h = self.cls()
                    for x in v:
                        h.insert(x)
                else:
                    with given(f, v) as src:
                        h = self.cls.heapify(src)
            if type(h) is not self.cls:
                return enc.res("odd", s=type(h).__name__)
            self.o[op["o"]] = h
            return enc.NONE
        o = self.o[op["o"]]
        x = enc.unitem(op["x"])
        if k in ("insert", "remove"):
            return enc.r_none(getattr(o, k)(x))
        if k in ("remove_min", "remove_max", "clear"):
            return enc.r_none(getattr(o, k)())
        if k in ("min", "max"):
            return enc.r_val(getattr(o, "get_" + k)())
        if k == "contains":
            return enc.r_bool(x in o)
        if k == "len":
            return enc.r_int(len(o))
        if k == "is_empty":
            return enc.r_bool(o.is_empty())
        if k == "iter":
            return enc.r_items(list(islice(iter(o), CAP)))
        if k == "to_list":
            return enc.r_items(o.to_list())
        if k == "drop":
            del self.o[op["o"]]
            return enc.NONE
        raise KeyError(k)

    def project(self, op):
        return {n: {"s": enc.items(o.to_list()), "it": enc.items(list(islice(iter(o), CAP))), "len": len(o)}
                for n, o in self.o.items()}

    def rand_op(self, rng, g, i, n):
        if i == 0:
            self.pool = rng.choice([[0, 1, 2], list(range(-3, 9)), [x / 2 for x in range(-6, 12)] + list(range(-2, 5)),
                                    [rng.randint(-1000, 1000) for _ in range(200)],
                                    EXACT + [INF, -INF], [0, 0.0, 1, 1.0, -1, float("inf"), float("-inf"), 2.5, 10 ** 8, -10 ** 8, 3]])
            if g.get("start", 12) > 20 and rng.random() < .7:
                self.pool = [rng.randint(-1000, 1000) for _ in range(200)]
            self.phase = rng.choice([.35, .5, .6])
        if i < 1 or rng.random() < .01:
            return self.r_new(rng, g)
        o = rng.choice(sorted(self.o))
        if len(self.o) > 2:
            return {"op": "drop", "o": o}
        s = self.o[o].to_list()
        x = enc.item(rng.choice(self.pool))
        if rng.random() < .05:
            self.phase = rng.choice([.15, .35, .5, .6])
        r = rng.random()
        if r < self.phase:
            return {"op": "insert", "o": o, "x": x}
        if r < .7:
            c = rng.random()
            if c < .15:
                return {"op": "remove_min", "o": o}
            if c < .3:
                return {"op": "remove_max", "o": o}
            if c < .9 and s:
                x = enc.item(rng.choice([s[0], s[-1], rng.choice(s), rng.choice(s), rng.choice(s)]))
            if rng.random() < .15:
                x = enc.item(twin(rng, enc.unitem(x)))
            return {"op": "remove", "o": o, "x": x}
        if r < .78:
            return {"op": "contains", "o": o, "x": enc.item(twin(rng, enc.unitem(x))) if rng.random() < .2 else x}
        if r < .94:
            return {"op": rng.choice(["len", "is_empty", "max", "min", "max", "min", "iter", "to_list"]), "o": o}
        if r < .945:
            return {"op": "clear", "o": o}
        bad = rng.choice([enc.item(None), dict(enc.item(None), t="extra", p="Node"), enc.item("1"),
                          enc.item(True), enc.item([1])])
        c = rng.randrange(3)
        if c == 0:
            return {"op": rng.choice(["insert", "insert", "remove", "contains"]), "o": o, "x": bad}
        if c == 1:
            return {"op": "new", "o": "z", "f": "noniter"}
        xs = [enc.item(rng.choice(self.pool)) for _ in range(rng.randint(0, 4))]
        xs.insert(rng.randint(0, len(xs)), bad)
        return {"op": "new", "o": "z", "xs": xs}

    def r_new(self, rng, g):
        name = rng.choice("ab") if self.o else "a"
        if self.o and rng.random() < .4:
            return {"op": "new", "o": name, "f": "obj", "a": rng.choice(sorted(self.o))}
        m = size(rng, g.get("start", 12))
        return {"op": "new", "o": name, "f": rng.choice(FORMS + ["ctor"] * 2),
                "xs": enc.items([rng.choice(self.pool) for _ in range(m)])}


AD = "checks.heap:Heap"


def mc(kind, keys, n, **kw):
    return Mc("HeapMC", """SPECIFICATION Spec
CONSTANTS Kind = "%s" Keys = %d MaxLen = %d
VIEW View
INVARIANTS Order Achieves Top Far Shape EmitState
""" % (kind, keys, n), emit=True, adapter=AD, acfg={"kind": kind}, **kw)


def build(pid):
    kind = "min" if pid == "H01" else "max"
    cfg = {"kind": kind}
    return Check(pid, "HeapTrace", [mc(kind, 4, 5, quick_only=True), mc(kind, 5, 7, thorough_only=True)],
                 [Rand(AD, {}, 200, 80, cfg), Rand(AD, {"start": 40}, 80, 60, cfg), Rand(AD, {"start": 120}, 16, 50, cfg),
                  Rand(AD, {"start": 600}, 5, 30, cfg), Rand(AD, {"new": .001}, 6, 500, cfg)],
                 lambda c: c != "alg", trace_cfg='CONSTANT Kind = "%s"\n' % kind)
