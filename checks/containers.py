"""Stack, Queue, Deque, PriorityQueue (spec: Containers)."""
from itertools import islice

from vlib import enc
from checks.pools import EXACT, pool
from vlib.core import Check, Mc, Rand

CAP = 2000
KINDS = ["Stack", "Queue", "Deque", "PriorityQueue"]
INS = {"Stack": ["push"], "Queue": ["enqueue"], "Deque": ["enqueue", "append_left", "append_right"],
       "PriorityQueue": ["enqueue"]}
REM = {"Stack": ["pop"], "Queue": ["dequeue"], "Deque": ["dequeue", "pop_left", "pop_right"],
       "PriorityQueue": ["dequeue"]}
LOOK = {"Stack": ["peek"], "Queue": ["top"], "Deque": ["top", "get_left", "get_right"],
        "PriorityQueue": ["top"]}


class Containers:
    DEFAULT = {"op": "", "o": "a", "ki": "", "ct": "absent", "cap": 0, "x": enc.item(None),
               "pt": "absent", "p": enc.item(None), "f": ""}
    ASKS = {"peek", "top", "get_left", "get_right", "len", "is_empty", "is_full"}

    def __init__(self, cfg):
        import extra
        self.x = extra
        self.o = {}

    def do(self, op):
        k = op["op"]
        if k == "new":
            ct = op["ct"]
            cls = getattr(self.x, op["ki"])
            if ct == "absent":
                self.o[op["o"]] = cls()
                return enc.NONE
            cap = {"none": None, "str": "3", "bool": True, "list": [3], "inf": float("inf"),
                   "int": op["cap"] // 4, "float": op["cap"] / 4}[ct]
            self.o[op["o"]] = cls(max_capacity=cap) if op["f"] == "kw" else cls(cap)
            return enc.NONE
        o = self.o[op["o"]]
        if k == "drop":
            del self.o[op["o"]]
            return enc.NONE
        x = enc.unitem(op["x"])
        if k in ("push", "append_left", "append_right"):
            return enc.r_none(getattr(o, k)(x))
        if k == "enqueue":
            pt = op["pt"]
            if pt == "absent":
                return enc.r_none(o.enqueue(x))
            p = {"str": "1", "bool": True, "list": [1]}.get(pt)
            if pt == "num":
                p = enc.unitem(op["p"])
            return enc.r_none(o.enqueue(x, priority=p))
        if k == "dequeue":
            if op["f"] == "low":
                return enc.r_val(o.dequeue(lowest_priority=True))
            if op["f"] == "high":
                return enc.r_val(o.dequeue(lowest_priority=False))
            return enc.r_val(o.dequeue())
        if k in ("pop", "pop_left", "pop_right", "peek", "top", "get_left", "get_right"):
            return enc.r_val(getattr(o, k)())
        if k == "len":
            return enc.r_int(len(o))
        if k in ("is_empty", "is_full"):
            return enc.r_bool(getattr(o, k)())
        if k == "clear":
            return enc.r_none(o.clear())
        raise KeyError(k)

    def project(self, op):
        return {n: self.view(o) for n, o in self.o.items()}

    def view(self, o):
        kind = type(o).__name__
        xs, ps = [], []
        if kind == "PriorityQueue":
            cur = o._container._head
            while cur is not None and len(xs) < CAP:
                xs.append(enc.item(cur.get_data()))
                ps.append(enc.item(cur.get_priority()))
                cur = cur.get_next()
        else:
            xs = enc.items(list(islice(iter(o._container), CAP)))
            ps = [enc.item(None)] * len(xs)
        return {"kind": kind, "len": len(o), "xs": xs, "ps": ps}

    # ------------------------------------------------------ random operations
    def rand_op(self, rng, g, i, n):
        kind = g["kind"]
        if i == 0:
            self.pool = pool(rng, rng.choice(g["pools"]))
            self.prios = rng.choice([[0, 1, 2], [5], list(range(-3, 4)), [0, 0.5, -0.5, 1, 1.0],
                                     [rng.randint(-100, 200) for _ in range(20)], list(range(0, 101, 5)), EXACT])
            self.ptypes = rng.choice([["num"], ["num", "num", "absent"], ["absent"]])
            self.phase = 0.6
        if i < 2:
            return self.r_new(rng, kind, "ab"[i], g)
        if rng.random() < .05:
            self.phase = rng.choice([.3, .45, .6, .9])
        names = list(self.o)
        if not names or rng.random() < .01:
            return self.r_new(rng, kind, rng.choice("abc"), g)
        o = rng.choice(names[:1] * 3 + names)
        r = rng.random()
        if r < .12:
            return {"op": rng.choice(LOOK[kind] + ["len", "is_empty", "is_full"]), "o": o}
        if r < .135:
            return {"op": "clear", "o": o}
        if r < .19:
            return self.r_invalid(rng, kind, o)
        x = enc.item(rng.choice([v for v in self.pool if v is not None]))
        if rng.random() < self.phase and len(self.o[o]) < g.get("maxlen", 60):
            op = {"op": rng.choice(INS[kind]), "o": o, "x": x}
            if kind == "PriorityQueue":
                op["pt"] = rng.choice(self.ptypes)
                if op["pt"] == "num":
                    op["p"] = enc.item(rng.choice(self.prios))
            return op
        op = {"op": rng.choice(REM[kind]), "o": o}
        if kind == "PriorityQueue":
            op["f"] = rng.choice(["", "low", "high", "low"])
        return op

    def r_new(self, rng, kind, name, g):
        op = {"op": "new", "o": name, "ki": kind, "f": rng.choice(["", "kw"])}
        c = rng.random()
        if c < .3:
            return op
        if c < .4:
            op["ct"] = "inf"
        elif c < .75:
            op.update(ct="int", cap=4 * rng.choice([0, 1, 2, 3, 4, rng.randint(0, 30)]))
        else:
            op.update(ct="float", cap=rng.randint(0, 40))
        return op

    def r_invalid(self, rng, kind, o):
        bad = enc.item(None) if rng.random() < .5 else dict(enc.item(None), t="extra",
              p=rng.choice(["Node", "LinkedList", "Stack", "BST"]))
        c = rng.randrange(3)
        if c == 0:
            return rng.choice([
                {"op": "new", "o": "z", "ki": kind, "ct": rng.choice(["none", "str", "bool", "list"])},
                {"op": "new", "o": "z", "ki": kind, "ct": rng.choice(["int", "float"]), "cap": -4 * rng.randint(1, 5)}])
        if c == 1 and kind == "PriorityQueue":
            return {"op": "enqueue", "o": o, "x": enc.item(1), "pt": rng.choice(["str", "bool", "list"])}
        return {"op": rng.choice(INS[kind]), "o": o, "x": bad, "pt": "absent"}


AD = "checks.containers:Containers"


def mc(kind, ml, prios="{0, 1}", **kw):
    return Mc("ContMC", """SPECIFICATION Spec
CONSTANTS Kind = "%s" MaxLen = %d Prios = %s
VIEW View
INVARIANTS Capacity Frame Service EmitState
""" % (kind, ml, prios), emit=True, adapter=AD, **kw)


def build(pid):
    kind = {"Q01": "Stack", "Q02": "Queue", "Q03": "Deque", "Q04": "PriorityQueue"}[pid]
    pq = kind == "PriorityQueue"
    g = lambda **k: dict({"kind": kind, "pools": ["mixed", "ints", "objects", "wide", "things"]}, **k)
    return Check(
        pid, "ContTrace",
        [mc(kind, 3, quick_only=True), mc(kind, 3 if pq else 5, "{0, 1, 2}", thorough_only=True)],
        [Rand(AD, g(), 300, 90), Rand(AD, g(maxlen=9), 200, 90), Rand(AD, g(maxlen=300, pools=["wide"]), 20, 400)],
        lambda c: True)
