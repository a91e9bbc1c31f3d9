"""BST, AVL, RedBlackTree, SplayTree, Treap (spec: SearchTree)."""
import sys
from itertools import islice

from vlib import enc
from checks.pools import EXACT, INF, FORMS, drilled, given, shape, size, twin
from vlib.core import Check, Mc, Rand

CAP = 1500
CLASS = {"bst": "BST", "avl": "AVL", "rb": "RedBlackTree", "splay": "SplayTree", "treap": "Treap"}
SHAPE = {"height": "get_height", "depth": "get_depth", "leaves": "count_leaf_nodes", "balanced": "is_balanced",
         "perfect": "is_perfect", "strict": "is_strict", "to_list": "to_list", "pre": "preorder_traverse",
         "dfs": "depth_first_traverse", "post": "postorder_traverse", "in": "inorder_traverse",
         "bfs": "breadth_first_traverse", "leftview": "get_leftside_view", "rightview": "get_rightside_view"}
INTS = {"height", "depth", "leaves"}
BOOLS = {"balanced", "perfect", "strict"}


def lists(r):
    if type(r) is not list or any(type(x) is not list for x in r):
        return enc.res("odd", s=type(r).__name__)
    flat = []
    for x in r:
        flat += enc.items(x) + [enc.item(None)]
    out = enc.res("lists", n=len(r), l=flat)
    for x in r:
        enc.spoil(x)
    enc.spoil(r)
    return out


def ask(o, k, f=""):
    """The questions about the shape of a binary tree."""
    if k == "iter":
        return enc.r_items(list(islice(iter(o), CAP)))
    if k == "per_level":
        return lists(o.get_nodes_per_level())
    if k == "traverse":
        return enc.r_items(o.traverse(3) if f == "notstr" else o.traverse(f) if f else o.traverse())
    r = getattr(o, SHAPE[k])()
    return (enc.r_int if k in INTS else enc.r_bool if k in BOOLS else enc.r_items)(r)


def walk(root):
    """All nodes below root, in pre-order, with a bound against cycles."""
    out, stack = [], [root] if root is not None else []
    while stack:
        n = stack.pop()
        out.append(n)
        if len(out) > CAP:
            raise ValueError("cycle")
        for c in (n.get_right(), n.get_left()):
            if c is not None:
                stack.append(c)
    return out


def listed(n, mark):
    """The tree below n in pre-order; k tells which children a node has."""
    return [{"d": enc.item(m.get_data()), "m": mark(m),
             "k": (m.get_left() is not None) + 2 * (m.get_right() is not None)} for m in walk(n)]


class Search:
    DEFAULT = {"op": "", "o": "a", "a": "", "x": enc.item(None), "y": enc.item(None), "xs": [], "f": ""}
    ASKS = {"max", "min", "contains", "len", "is_empty", "iter", "black_height", "traverse", "per_level", *SHAPE}

    def __init__(self, cfg):
        import extra
        sys.setrecursionlimit(6000)
        self.kind = cfg["kind"]
        self.cls = getattr(extra, CLASS[self.kind])
        self.o = {}

    def do(self, op):
        k, f = op["op"], op["f"]
        if k == "new":
            if f == "noniter":
                src = 5
            elif f == "obj":
                src = self.o[op["a"]]
            else:
                with given(f, [enc.unitem(i) for i in op["xs"]]) as src:
                    self.o[op["o"]] = self.cls(src)
                return enc.NONE
            self.o[op["o"]] = self.cls(src)
            return enc.NONE
        o = self.o[op["o"]]
        x = enc.unitem(op["x"])
        if k == "insert":
            y = enc.unitem(op["y"])
            return enc.r_none(o.insert(x) if y is None else o.insert(x, y))
        if k == "remove":
            return enc.r_none(o.remove(x))
        if k == "contains":
            return enc.r_bool(x in o)
        if k == "len":
            return enc.r_int(len(o))
        if k == "is_empty":
            return enc.r_bool(o.is_empty())
        if k == "max":
            return enc.r_val(o.get_max())
        if k == "min":
            return enc.r_val(o.get_min())
        if k == "black_height":
            return enc.r_int(o.get_black_height())
        if k == "kin":
            for n in walk(o._root):
                if n.get_data() == x:
                    kin = [n.get_parent(), n.get_grand_parent(), n.get_uncle(), n.get_sibling()]
                    return enc.r_items([None if m is None else m.get_data() for m in kin])
            return enc.res("odd", s="absent")
        if k == "clear":
            return enc.r_none(o.clear())
        if k == "drop":
            del self.o[op["o"]]
            return enc.NONE
        return ask(o, k, f)

    def mark(self, n):
        if self.kind == "avl":
            return enc.r_int(n.get_height())["n"]
        if self.kind == "rb":
            c = n.get_color()
            return {"RED": "R", "BLACK": "B"}.get(getattr(c, "name", ""), "?")
        if self.kind == "treap":
            return enc.item(n.get_priority())
        return 0

    def project(self, op):
        return {n: self.view(o) for n, o in self.o.items()}

    def view(self, o):
        ns = walk(o._root)
        ok = not ns or ns[0].get_parent() is None
        for n in ns:
            for c in (n.get_left(), n.get_right()):
                ok = ok and (c is None or c.get_parent() is n)
        return {"len": len(o), "t": listed(o._root, self.mark), "links": "ok" if ok else "bad"}

    # ---------------------------------------------------------- random calls
    def rand_op(self, rng, g, i, n):
        if i == 0:
            c = rng.randrange(6) if g.get("start", 12) < 20 or rng.random() < .2 else 2 if g["start"] > 100 else rng.choice([2, 3])
            self.pool = [list(range(-3, 9)), [x / 2 for x in range(-6, 12)] + list(range(-2, 5)),
                         [rng.randint(-1000, 1000) for _ in range(max(200, 2 * g.get("start", 0)))],
                         list(range(60)),
                         EXACT + [INF, -INF], [0, 0.0, 1, 1.0, -1, float("inf"), float("-inf"), 2.5, 10 ** 8, -10 ** 8, 3, 4, 5]][c]
            self.pris = rng.choice([None, [0, 1], list(range(-5, 6)), [rng.randint(-9, 9) / 4 for _ in range(9)] + [5, 100, -3],
                                    [rng.randint(0, 100) for _ in range(40)], EXACT])
            self.phase = rng.choice([.35, .5, .6])
            self.sweep = rng.random() < .25
            self.shaped = self.drain = 0
        if i < 1 or rng.random() < g.get("new", .01):
            return self.r_new(rng, g)
        if self.shaped and rng.random() < .6:
            self.shaped -= 1
            return {"op": rng.choice(["balanced", "perfect", "strict", "leftview", "rightview", "height", "leaves"]),
                    "o": self.last}
        if self.drain and self.last in self.o and rng.random() < .8:
            self.drain -= 1
            ns = [self.o[self.last]._root]
            if ns[0] is not None:
                for m in ns:
                    ns += [c for c in (m.get_left(), m.get_right()) if c is not None]
                leaves = [m for m in ns if m.is_leaf()]
                m = {"high": leaves[0], "deep": leaves[-1], "root": ns[0], "inner": rng.choice(ns),
                     "min": min(ns, key=lambda m: m.get_data()), "max": max(ns, key=lambda m: m.get_data())}[self.way]
                return {"op": "remove", "o": self.last, "x": enc.item(m.get_data())}
        o = rng.choice(sorted(self.o))
        if len(self.o) > 2:
            return {"op": "drop", "o": o}
        t = self.o[o]
        x = rng.choice(self.pool)
        x = enc.item(twin(rng, x) if rng.random() < .1 else x)
        if rng.random() < .05:
            self.phase = rng.choice([.15, .35, .5, .6])
        r = rng.random() * (1 - g.get("quiet", 0)) 
        if r < self.phase * (1 - g.get("quiet", 0)):
            return self.r_ins(rng, o, x)
        if r < .68 * (1 - g.get("quiet", 0)):
            if rng.random() < .8:
                vs = [m.get_data() for m in walk(t._root)]
                if vs:
                    x = enc.item(rng.choice([vs[0], min(vs), max(vs), rng.choice(vs), rng.choice(vs), rng.choice(vs)]))
            return {"op": "remove", "o": o, "x": x}
        if r < .76:
            return {"op": "contains", "o": o, "x": x}
        if r < .93:
            k = rng.choice(["len", "is_empty", "max", "min", "kin", "kin", "black_height", "traverse", "iter", "per_level"]
                           + list(SHAPE))
            if k == "kin":
                vs = [m.get_data() for m in walk(t._root)]
                if vs:
                    return {"op": "kin", "o": o, "x": enc.item(rng.choice(vs))}
                k = "len"
            if k == "black_height" and self.kind != "rb":
                k = "height"
            if k == "traverse":
                return {"op": k, "o": o, "f": rng.choice(["", "inorder", "postorder", "preorder", "depth-first",
                                                          "breadth-first", "InOrder", "notstr", "levels", "inorder ", "depth_first"])}
            return {"op": k, "o": o}
        if r < .935:
            return {"op": "clear", "o": o}
        bad = rng.choice([enc.item(None), dict(enc.item(None), t="extra", p="Node"), enc.item("1"),
                          enc.item(True), enc.item([1])])
        c = rng.randrange(4)
        if c == 0 and self.kind == "treap":
            return {"op": "insert", "o": o, "x": x, "y": rng.choice([enc.item("1"), enc.item(True), enc.item([1])])}
        if c <= 1:
            return {"op": rng.choice(["insert", "insert", "remove", "contains"]), "o": o, "x": bad}
        if c == 2:
            return {"op": "new", "o": "z", "f": "noniter"}
        xs = [enc.item(rng.choice(self.pool)) for _ in range(rng.randint(0, 4))]
        xs.insert(rng.randint(0, len(xs)), bad)
        return {"op": "new", "o": "z", "xs": xs}

    def r_ins(self, rng, o, x):
        d = {"op": "insert", "o": o, "x": x}
        if self.kind == "treap" and self.pris and rng.random() < .9:
            d["y"] = enc.item(rng.choice(self.pris))
        return d

    def r_new(self, rng, g):
        name = rng.choice("ab") if self.o else "a"
        if self.o and rng.random() < .4:
            return {"op": "new", "o": name, "f": "obj", "a": rng.choice(sorted(self.o))}
        f = rng.choice(FORMS + ["none"])
        m = 0 if f == "none" else size(rng, g.get("start", 12))
        xs = [rng.choice(self.pool) for _ in range(m)]
        if f != "none" and rng.random() < g.get("drill", .35):
            xs = self.r_shaped(rng, max(m, 7), g.get("drill"))
            self.shaped, self.last = 3, name
            if g.get("drill") or rng.random() < .5:
                self.shaped, self.drain = 1, rng.choice([4, 12, 40])
                self.way = rng.choice(["high", "high", "deep", "min", "max"] + ["root", "inner"] * (not g.get("drill")))
        elif self.sweep:
            xs = sorted(xs, reverse=rng.random() < .5)
        return {"op": "new", "o": name, "f": f, "xs": enc.items(xs)}


    def r_shaped(self, rng, most, drill):
        """Values that make a plain search tree of a telling shape."""
        t, num = drilled(rng, most) if drill else shape(rng, most), {}
        step, base = rng.choice([1, 1, 2, .5]), rng.choice([0, -5, 100])

        def inorder(n):
            if n is not None:
                inorder(n[0])
                num[id(n)] = base + step * len(num)
                inorder(n[1])

        inorder(t)
        self.pool = list(num.values()) + [base - 1, base - .5]
        level, out = [t], []
        while level:
            out += [num[id(n)] for n in level]
            level = [c for n in level for c in n if c is not None]
        return out


AD = "checks.search:Search"
SET = {"set", "order", "res", "frame", "len", "links", "reject", "reject_state", "warn", "broken", "kin"}
# property -> (kind, clauses it owns besides a crash)
PROPS = {
    "B01": ("bst", SET | {"leaf"}), "B02": ("bst", {"shape", "broken"}),
    "A01": ("avl", SET), "A02": ("avl", {"balance", "height", "shape", "broken"}),
    "R01": ("rb", SET), "R02": ("rb", {"rb_root", "rb_red", "rb_black", "bh", "shape", "broken"}),
    "S01": ("splay", SET), "S02": ("splay", {"root", "splay", "shape", "broken"}),
    "P01": ("treap", SET), "P02": ("treap", {"heap", "prio", "shape", "broken"}),
}
KEYS = {"bst": (4, 1, 6), "avl": (6, 1, 8), "rb": (6, 1, 8), "splay": (4, 1, 5), "treap": (3, 3, 4)}


def mc(kind, keys, pris, emit=True, **kw):
    return Mc("SearchMC", """SPECIFICATION Spec
CONSTANTS Kind = "%s" Keys = %d Pris = %d
VIEW View
INVARIANTS Rules Achieves Shallow Splays Unique Refusals Views %s
""" % (kind, keys, pris, "EmitState" if emit else ""), emit=emit, adapter=AD, acfg={"kind": kind}, **kw)


def build(pid):
    kind, own = PROPS[pid]
    k, p, deep = KEYS[kind]
    cfg = {"kind": kind}
    return Check(pid, "SearchTrace",
                 [mc(kind, k, p, quick_only=True), mc(kind, deep, p, thorough_only=True)],
                 [Rand(AD, {}, 300, 80, cfg), Rand(AD, {"start": 60}, 80, 70, cfg),
                  Rand(AD, {"start": 150}, 16, 50, cfg), Rand(AD, {"start": 80, "new": .2}, 60, 25, cfg),
                  Rand(AD, {"start": 500}, 5, 30, cfg), Rand(AD, {"new": .001}, 6, 500, cfg),
                  Rand(AD, {"start": 150, "new": .04, "drill": .9}, 60, 60, cfg)],
                 lambda c: c in own, trace_cfg='CONSTANT Kind = "%s"\n' % kind)
