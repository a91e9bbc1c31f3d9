"""LinkedList, DoublyLinkedList, CircularLinkedList (spec: ListWorld)."""
from itertools import islice

from vlib import enc
from vlib.enc import res
from checks.pools import FORMS, given, pool, size, twin
from vlib.core import Check, Mc, Rand

OMIT = 999999
CMP = ["eq", "ne", "lt", "le", "gt", "ge"]
NAMES = {"LL": "LinkedList", "DLL": "DoublyLinkedList", "CLL": "CircularLinkedList"}
CAP = 600


class Lists:
    DEFAULT = {"op": "", "o": "a", "a": "", "b": "", "c": "", "ki": "LL", "ti": "int", "i": 0,
               "j": 0, "k": 0, "x": enc.item(None), "xs": [], "f": ""}
    ASKS = {"get", "contains", "count", "len", "is_empty", "to_list", "iter"}

    def __init__(self, cfg):
        import extra
        self.cls = {k: getattr(extra, n) for k, n in NAMES.items()}
        self.o = {}
        self.serial = 0

    # ------------------------------------------------------------ the calls
    def kind(self, obj):
        for k, c in self.cls.items():
            if type(obj) is c:
                return k
        return type(obj).__name__

    def give(self, name, obj):
        self.o[name] = obj
        return obj

    def seq(self, obj):
        return enc.items(list(islice(iter(obj), CAP)))

    def r_obj(self, name, obj):
        k = self.kind(obj)
        if k not in self.cls:
            return res("odd", s=k)
        self.give(name, obj)
        xs = self.seq(obj)
        return res("obj", s=k, n=len(xs), l=xs)

    def index(self, op):
        t = op["ti"]
        if t == "int":
            return op["i"]
        if t == "slice":
            d = lambda v: None if v == OMIT else v
            return slice(d(op["i"]), d(op["j"]), d(op["k"]))
        return {"bool": True, "float": 1.0, "str": "1", "none": None}[t]

    def do(self, op):
        k, f = op["op"], op["f"]
        if k == "new":
            c = self.cls[op["ki"]]
            if f == "noniter":
                src = 5
            elif f == "obj":
                src = self.o[op["a"]]
            else:
                with given(f, [enc.unitem(i) for i in op["xs"]]) as src:
                    self.give(op["o"], c(src))
                return enc.NONE
            self.give(op["o"], c(src))
            return enc.NONE
        o = self.o[op["o"]]
        peer = [1, 2] if f == "plain" else self.o.get(op["a"])
        x = enc.unitem(op["x"])
        i = self.index(op)
        if k in ("add_front", "add_end"):
            return enc.r_none(getattr(o, k)(x))
        if k == "insert":
            return enc.r_none(o.insert(i, x))
        if k == "extend":
            return enc.r_none(o.extend(peer))
        if k == "set":
            o[i] = x
            return enc.NONE
        if k == "del":
            del o[i]
            return enc.NONE
        if k in ("remove_front", "remove_end", "clear"):
            return enc.r_none(getattr(o, k)())
        if k == "remove":
            if f == "boom":
                return self.cut(o, x, op["i"])
            if f == "bad":
                return enc.r_none(o.remove(x, all=1))
            if f == "all" and op["j"] == 1:
                return enc.r_none(o.remove(x))
            return enc.r_none(o.remove(x, all=(f == "all")))
        if k == "drop":
            del self.o[op["o"]]
            return enc.NONE
        if k == "split":
            r = o.split(i)
            if type(r) is not tuple or len(r) != 2:
                return res("odd", s=type(r).__name__)
            u, v = self.r_obj(op["b"], r[0]), self.r_obj(op["c"], r[1])
            if u["s"] != v["s"]:
                return res("odd", s=u["s"] + v["s"])
            return res("pair", s=u["s"], n=u["n"], l=u["l"] + v["l"])
        if k in ("rotate_left", "rotate_right"):
            fn = getattr(o, k)
            if f == "bad":
                return enc.r_none(fn(i, inplace=1))
            if f == "out":
                return self.r_obj(op["b"], fn(i, inplace=False))
            return enc.r_none(fn(i) if op["j"] == 1 else fn(i, inplace=True))
        if k in ("reverse", "copy"):
            return self.r_obj(op["b"], getattr(o, k)())
        if k == "get":
            r = o[i]
            return self.r_obj(op["b"], r) if op["ti"] == "slice" else enc.r_val(r)
        if k == "contains":
            return enc.r_bool(x in o)
        if k == "count":
            return enc.r_int(o.count(x))
        if k == "len":
            return enc.r_int(len(o))
        if k == "is_empty":
            return enc.r_bool(o.is_empty())
        if k == "to_list":
            return enc.r_items(o.to_list())
        if k == "iter":
            return enc.r_items(list(islice(iter(o), CAP)))
        if k in CMP:
            import operator
            return enc.r_bool(getattr(operator, k)(o, peer))
        raise KeyError(k)

    def cut(self, o, x, n):
        """A removal of x that ends when x has been compared n times."""
        left = [n]

        class Boom(Exception):
            pass

        class Value:
            def __eq__(self, other):
                if left[0] == 0:
                    raise Boom()
                left[0] -= 1
                return x == other

            def __ne__(self, other):
                return not self == other
            __hash__ = None

        try:
            return enc.r_none(o.remove(Value()))
        except Boom:
            return res("exc", s="Boom")

    # ----------------------------------------------------- the observed state
    def project(self, op):
        return {n: self.view(o) for n, o in self.o.items()}

    def view(self, o):
        kind = self.kind(o)
        it = self.seq(o)
        v = {"kind": kind, "len": len(o), "it": it, "fend": "na", "bend": "na"}
        if not hasattr(o, "_head"):
            return v
        n, nodes, cur = len(o), [], o._head
        if n == 0:
            v["fend"] = "null"
            if kind == "DLL" and hasattr(o, "_tail"):
                v["bend"] = "ok" if o._tail is None and o._head is None else "bad"
            return v
        try:
            for _ in range(min(n, CAP)):
                nodes.append(cur)
                cur = cur.get_next()
            fwd = [enc.item(x.get_data()) for x in nodes]
        except AttributeError:
            v["fend"] = "err"
            return v
        if fwd != it:
            v["fwd"] = fwd                # absent: the same as it
        v["fend"] = "null" if cur is None else "ring" if cur is o._head else "more"
        if kind == "DLL" and hasattr(o, "_tail"):
            back, cur = [], o._tail
            while cur is not None and len(back) <= n:
                back.append(cur)
                cur = cur.get_prev()
            bwd = [enc.item(x.get_data()) for x in back]
            if bwd != it[::-1]:
                v["bwd"] = bwd            # absent: it, reversed
            same = len(back) == len(nodes) and all(p is q for p, q in zip(back, reversed(nodes)))
            v["bend"] = "ok" if same and cur is None else "bad"
        return v

    # ------------------------------------------------------ random operations
    def rand_op(self, rng, g, i, n):
        kinds = g["kinds"]
        if i == 0:
            self.pool = pool(rng, rng.choice(g["pools"]))
            self.p = lambda: enc.item(rng.choice(self.pool))
        if i < g.get("objs", 2):
            return self.r_new(rng, rng.choice(kinds), "abcdef"[i], g)
        names = list(self.o)
        if not names:
            return self.r_new(rng, rng.choice(kinds), "a", g)
        if len(names) > 5:
            return {"op": "drop", "o": rng.choice(names)}
        o = rng.choice(names)
        L = len(self.o[o])
        ops, wts = zip(*g["mix"].items())
        k = rng.choices(ops, wts)[0]
        if L > g.get("maxlen", 40) and k in ("extend", "add_end", "add_front", "insert"):
            k = rng.choice(["remove_end", "remove_front", "del", "split", "remove"])
        cll = self.kind(self.o[o]) == "CLL"
        kind = self.kind(self.o[o])
        edge = lambda lo, hi: rng.choice([lo, hi, rng.randint(min(lo, hi), max(lo, hi))])
        fresh = lambda: self.fresh(rng)
        if k == "new":
            return self.r_new(rng, rng.choice(kinds), rng.choice("abcdef"), g)
        if k == "invalid":
            return self.r_invalid(rng, o, L, cll, kind)
        op = {"op": k, "o": o}
        if k in ("add_front", "add_end", "contains", "count"):
            op["x"] = self.p()
            if k in ("contains", "count") and L and rng.random() < .4:
                op["x"] = enc.item(self.nth(o, rng.randrange(L)))
            if k in ("contains", "count") and rng.random() < .2:
                op["x"] = enc.item(twin(rng, enc.unitem(op["x"]), True))
        elif k == "insert":
            op.update(i=edge(0, L if not cll else rng.choice([2 * L + 3, 9 * L + 5, 10 ** 6])), x=self.p())
        elif k in ("set", "del"):
            if cll:
                op["i"] = edge(0, rng.choice([2 * L + 3, 9 * L + 5, 10 ** 6]))
                if not L:
                    op["op"] = "del"
            elif L == 0:
                return {"op": "is_empty", "o": o}
            else:
                op["i"] = edge(0, L - 1)
            op["x"] = self.p()
        elif k == "remove":
            op["x"] = self.p()
            if L and rng.random() < .6:
                op["x"] = enc.item(self.nth(o, rng.choice([0, L - 1, rng.randrange(L)])))
            op["f"] = rng.choice(["all", "first"])
            op["j"] = rng.randint(0, 1)
            if rng.random() < .08:
                op.update(f="boom", i=rng.randint(0, L))
            if op["x"]["t"] == "none":
                op["x"] = self.p()
            if rng.random() < .15:
                op["x"] = enc.item(twin(rng, enc.unitem(op["x"]), True))
        elif k == "extend":
            ok = [m for m in names if kind == self.kind(self.o[m]) or kind == "LL"]
            op["a"] = rng.choice(ok)
            if L + len(self.o[op["a"]]) > 400:
                return {"op": "len", "o": o}
        elif k == "split":
            op.update(i=edge(0, L if not cll else rng.choice([2 * L + 3, 9 * L + 5, 10 ** 6])), b=fresh())
            op["c"] = rng.choice([m for m in "abcdefgh" if m != op["b"]])
        elif k in ("rotate_left", "rotate_right"):
            op.update(i=rng.choice([0, 1, L, L + 1, max(L - 1, 0), 2 * L, rng.randint(0, 3 * L + 2), rng.randint(0, 9 * L + 9), 10 ** 6 + L]),
                      f=rng.choice(["in", "out"]), j=rng.randint(0, 1))
            if op["f"] == "out":
                op["b"] = fresh()
        elif k in ("reverse", "copy"):
            op["b"] = fresh()
        elif k == "get":
            if not cll and rng.random() < .5:
                d = lambda: rng.choice([OMIT, rng.randint(-L - 2, L + 2)])
                op.update(ti="slice", i=d(), j=d(), k=rng.choice([OMIT, 1, 2, 3, -1, -2, -3, L + 1]), b=fresh())
                if op["k"] == 0:
                    op["k"] = 1
            elif L == 0:
                return {"op": "len", "o": o}
            else:
                op["i"] = edge(0, rng.choice([2 * L + 3, 9 * L + 5, 10 ** 6])) if cll else edge(-L, L - 1)
        elif k in CMP:
            ok = [m for m in names if self.kind(self.o[m]) == kind]
            op["a"] = rng.choice(ok)
        return op

    def nth(self, o, i):
        return next(islice(iter(self.o[o]), i, None), 0)

    def fresh(self, rng):
        return rng.choice("abcdefgh") if rng.random() < .3 else \
            next((m for m in "abcdefgh" if m not in self.o), rng.choice("abcdefgh"))

    def r_new(self, rng, kind, name, g):
        op = {"op": "new", "o": name, "ki": kind}
        if self.o and rng.random() < .3:
            op.update(f="obj", a=rng.choice(list(self.o)))
            return op
        f = rng.choice(FORMS + ["none", "list", "dict"])
        m = 0 if f == "none" else size(rng, g["maxlen"]) if g.get("maxlen", 0) > 50 else rng.choice([0, 1, 2, 3, 4, rng.randint(0, g.get("maxlen", 40))])
        xs = [rng.choice(self.pool) for _ in range(m)]
        if f == "dict":
            try:
                xs = list(dict.fromkeys(xs))
            except TypeError:
                f = "list"
        op.update(f=f, xs=enc.items(xs))
        return op

    def r_invalid(self, rng, o, L, cll, kind):
        bad = enc.item(None) if rng.random() < .5 else dict(enc.item(None), t="extra",
              p=rng.choice(["Node", "LinkedList", "Stack", "BST"]))
        ti = rng.choice(["bool", "float", "str", "none", "slice"])
        c = rng.randrange(10)
        if c == 0:
            return {"op": rng.choice(["add_front", "add_end"]), "o": o, "x": bad}
        if c == 1:
            return {"op": "insert", "o": o, "i": rng.randint(0, L), "x": bad}
        if c == 2 and L:
            return {"op": "set", "o": o, "i": rng.randrange(L), "x": bad}
        if c == 3:
            return {"op": "remove", "o": o, "x": bad, "f": rng.choice(["all", "first"])}
        if c == 4:
            return {"op": rng.choice(["insert", "set", "del", "split"]), "o": o, "ti": ti, "x": self.p()}
        if c == 5:
            k = rng.choice(["insert", "set", "del", "split", "get"])
            lo = L + 1 if k in ("insert", "split") else L
            i = rng.choice([-1, -L, -L - 1, lo, lo + 1, -rng.randint(1, L + 3), rng.randint(lo, lo + 9)])
            if i == 0:
                i = -1
            return {"op": k, "o": o, "i": i, "x": self.p()}
        if c == 6:
            k = rng.choice(["rotate_left", "rotate_right"])
            return rng.choice([{"op": k, "o": o, "f": "bad", "i": 1},
                               {"op": k, "o": o, "f": rng.choice(["in", "out"]), "i": -rng.randint(1, 5)},
                               {"op": k, "o": o, "f": "in", "ti": rng.choice(["bool", "float", "str", "none"])}])
        if c == 7:
            return rng.choice([{"op": "extend", "o": o, "f": "plain"},
                               {"op": rng.choice(CMP), "o": o, "f": "plain"},
                               {"op": "remove", "o": o, "f": "bad", "x": self.p()}])
        if c == 8:
            other = [m for m in self.o if not (kind == self.kind(self.o[m]) or kind == "LL")]
            if other:
                return {"op": "extend", "o": o, "a": rng.choice(other)}
        if c == 9:
            xs = enc.items([rng.choice(self.pool) for _ in range(rng.randint(0, 6))])
            xs.insert(rng.randint(0, len(xs)), bad)
            return rng.choice([{"op": "new", "ki": kind, "o": "z", "xs": xs},
                               {"op": "new", "ki": kind, "o": "z", "f": "noniter"}])
        return {"op": "get", "o": o, "ti": rng.choice(["bool", "float", "str", "none"])}


# ---------------------------------------------------------------- the checks
BASE = {"add_front": 4, "add_end": 6, "insert": 8, "set": 5, "del": 5, "remove_front": 2,
        "remove_end": 2, "remove": 5, "extend": 3, "split": 2, "rotate_left": 3, "rotate_right": 3,
        "reverse": 2, "copy": 1, "get": 8, "contains": 3, "count": 2, "len": 1, "is_empty": 1,
        "to_list": 1, "iter": 1, "clear": .4, "new": .5}
DERIVE = {"split": 6, "rotate_left": 4, "rotate_right": 4, "reverse": 6, "copy": 6, "get": 6,
          "new": 6, "extend": 8, "set": 10, "add_front": 5, "add_end": 5, "insert": 6, "del": 6,
          "remove_front": 4, "remove_end": 4, "remove": 4, "clear": 1, "to_list": 2}
INVAL = {"invalid": 30, "add_end": 4, "add_front": 3, "insert": 3, "del": 2, "remove": 2, "clear": .5,
         "extend": 2, "rotate_left": 1, "set": 1, "new": 1, "remove_end": 1}
COMPARE = {**{c: 6 for c in CMP}, "add_end": 6, "set": 6, "copy": 3, "remove_end": 4, "new": 3,
           "insert": 2, "extend": 1, "rotate_left": 1}
AD = "checks.lists:Lists"


def mc(kind, mode="narrow", ml=3, pl=2, **kw):
    return Mc("ListMC", """SPECIFICATION Spec
CONSTANTS Kind = "%s" MaxLen = %d PeerLen = %d Mode = "%s"
VIEW View
INVARIANTS Laws Frame EmitState
""" % (kind, ml, pl, mode), emit=True, adapter=AD, **kw)


def seqcheck(pid, kind, extra):
    mine = {"res", "post", "links", "len", "broken", "crash"} | extra
    g = lambda **k: dict({"kinds": [kind], "pools": ["ints", "mixed", "tiny", "objects", "things"], "objs": 2, "mix": BASE}, **k)
    return Check(
        pid, "ListTrace", [mc(kind, quick_only=True), mc(kind, "wide", 4, 2, thorough_only=True)],
        [Rand(AD, g(), 260, 60),
         Rand(AD, g(maxlen=130, pools=["wide", "mixed"], objs=1), 24, 80),
         Rand(AD, g(maxlen=600, pools=["wide", "mixed"], objs=1), 6, 30),
         Rand(AD, g(objs=1, maxlen=12, pools=["tiny", "mixed"]), 120, 90),
         Rand(AD, g(objs=2, maxlen=9), 6, 600),
         Rand(AD, g(kinds=["LL", "DLL", "CLL"], objs=3), 60, 60)],
        lambda c: c in mine)


def build(pid):
    if pid == "L01":
        return seqcheck(pid, "LL", set())
    if pid == "L02":
        return seqcheck(pid, "DLL", {"back"})
    if pid == "L03":
        return seqcheck(pid, "CLL", {"ring"})
    kinds = ["LL", "DLL", "CLL"]
    if pid == "L04":
        return Check(pid, "ListTrace", [mc(k, "wide", 2, 2) for k in kinds],
                     [Rand(AD, {"kinds": [k], "pools": p, "objs": 4, "maxlen": m, "mix": COMPARE}, 70, 70)
                      for k in kinds for p, m in ((["tiny", "nums", "words"], 5), (["tiny"], 3), (["mixed", "nums"], 30))],
                     lambda c: c in ("cmp", "broken", "crash"))
    if pid == "L05":
        return Check(pid, "ListTrace", [mc(k, ml=3, pl=1) for k in kinds],
                     [Rand(AD, {"kinds": [k], "pools": ["wide", "mixed"], "objs": 2, "maxlen": 20, "mix": DERIVE}, 130, 70)
                      for k in kinds] +
                     [Rand(AD, {"kinds": kinds, "pools": ["wide"], "objs": 3, "maxlen": 20, "mix": DERIVE}, 130, 70)],
                     lambda c: c in ("frame", "broken", "crash"))
    if pid == "L06":
        return Check(pid, "ListTrace", [mc(k, ml=3, pl=1) for k in kinds],
                     [Rand(AD, {"kinds": kinds, "pools": ["mixed", "ints", "objects", "things"], "objs": 2, "maxlen": m, "mix": INVAL}, 150, 80)
                      for m in (4, 25)],
                     lambda c: c in ("reject", "reject_state", "broken", "crash"))
