"""Single nodes, linked by hand (spec: KinWorld)."""
import random

from vlib import enc
from vlib.core import Check, Mc, Rand

LISTS = ["node", "doubly", "skip", "prio"]
SEARCH = ["bst", "avl", "rb", "treap"]
TREES = ["tree", "bin", "heap", "trie"] + SEARCH


def classes():
    from extra.lists.linked_list import Node
    from extra.lists.doubly_linked_list import DoublyNode
    from extra.lists.skip_list import SkipNode
    from extra.lists.priority_queue import PriorityNode
    from extra.trees.tree import TreeNode
    from extra.trees.binary_tree import BinaryTreeNode
    from extra.trees._heap import HeapNode
    from extra.trees.bst import BSTNode
    from extra.trees.avl import AVLNode
    from extra.trees.red_black_tree import RedBlackNode
    from extra.trees.treap import TreapNode
    from extra.trees.trie import TrieNode
    return {"node": Node, "doubly": DoublyNode, "skip": SkipNode, "prio": PriorityNode, "tree": TreeNode, "bin": BinaryTreeNode,
            "heap": HeapNode, "bst": BSTNode, "avl": AVLNode, "rb": RedBlackNode, "treap": TreapNode, "trie": TrieNode}


def show(x):
    return str(x).encode("unicode_escape").decode()


class Nodes:
    DEFAULT = {"op": "", "ty": "", "o": "a", "a": "", "x": enc.item(None), "tx": "", "q": enc.item(None),
               "f": "", "n": 0, "ch": "", "as": []}

    def __init__(self, cfg):
        self.C = classes()
        self.n, self.ty = {}, {}

    def name(self, x):
        if x is None:
            return ""
        for k, v in self.n.items():
            if v is x:
                return k
        return "?" + type(x).__name__

    def r_name(self, x):
        return enc.NONE if x is None else enc.res("name", s=self.name(x))

    def color(self, f):
        from extra.trees.red_black_tree import Color
        return {"RED": Color.RED, "BLACK": Color.BLACK, "GREEN": "GREEN", "NIL": None, "ONE": 1, "TRUE": True}[f]

    def new(self, op):
        ty, x = op["ty"], enc.unitem(op["x"])
        C = self.C[ty]
        if ty in ("prio", "treap"):
            return C(x, enc.unitem(op["q"])) if op["q"]["t"] != "none" else C(x)
        if ty == "rb" and op["f"]:
            return C(x, color=self.color(op["f"]))
        return C(x)

    def do(self, op):
        k, o = op["op"], op["o"]
        if k == "new":
            n = self.new(op)
            self.n[o], self.ty[o] = n, op["ty"]
            return enc.NONE
        n = self.n[o]
        a = None if op["a"] == "" else 5 if op["a"] == "#" else self.n[op["a"]]
        names = {"next": "get_next", "prev": "get_prev", "down": "get_down", "get_left": "get_left", "get_right": "get_right",
                 "parent": "get_parent", "grand_parent": "get_grand_parent", "uncle": "get_uncle", "sibling": "get_sibling"}
        sets = {"set_next": "set_next", "set_prev": "set_prev", "set_down": "set_down", "left": "set_left",
                "right": "set_right", "set_parent": "set_parent"}
        if k in names:
            return self.r_name(getattr(n, names[k])())
        if k in sets:
            return enc.r_none(getattr(n, sets[k])(a))
        if k == "data":
            return enc.r_val(n.get_data())
        if k == "set_data":
            return enc.r_none(n.set_data(enc.unitem(op["x"])))
        if k == "priority":
            return enc.r_val(n.get_priority())
        if k == "set_priority":
            return enc.r_none(n.set_priority(enc.unitem(op["q"])))
        if k == "is_left":
            return enc.r_bool(n.is_left_child())
        if k == "is_leaf":
            return enc.r_bool(n.is_leaf())
        if k == "one_child":
            return enc.r_bool(n.has_one_child())
        if k == "kids":
            return enc.r_items([c.get_data() for c in n.get_children()])
        if k == "height":
            return enc.r_int(n.get_height())
        if k == "left_height":
            return enc.r_int(n.get_left_height())
        if k == "right_height":
            return enc.r_int(n.get_right_height())
        if k == "heights":
            p, q = n.get_children_heights()
            return enc.res("heights", n=p, l=[enc.item(q)])
        if k == "balanced":
            return enc.r_bool(n.is_balanced())
        if k == "set_height":
            return enc.r_none(n.set_height({"": op["n"], "bad": 1.0, "text": "1", "bool": True, "nil": None}[op["f"]]))
        if k == "color":
            return enc.res("text", s=n.get_color().name)
        if k == "set_color":
            return enc.r_none(n.set_color(self.color(op["f"])))
        if k == "swap":
            return enc.r_none(type(n).swap(n, a) if op["f"] != "bad2" else type(n).swap(a, n))
        if k == "repr":
            s = repr(n) if op["f"] != "str" else str(n)
            return enc.res("text", s=show(s))
        if k == "set_child" and self.ty[o] == "tree":
            return enc.r_none(n.set_child(a))
        if k == "set_children":
            if op["f"] == "noniter":
                return enc.r_none(n.set_children(5))
            c = [self.n[i] for i in op["as"]]
            if op["f"] == "bad":
                c.insert(op["n"], 5)
            src = tuple(c) if op["f"] == "tuple" else iter(c) if op["f"] == "gen" else c
            try:
                return enc.r_none(n.set_children(src))
            finally:
                c[:] = [n]
        if k == "set_child":
            return enc.r_none(n.set_child(op["ch"] if op["f"] != "badkey" else 5, a))
        if k == "get_child":
            return self.r_name(n.get_child(op["ch"]))
        raise KeyError(k)

    def project(self, op):
        out = {}
        for k, n in self.n.items():
            ty = self.ty[k]
            r = {"ty": ty, "d": enc.item(n.get_data()), "tx": show(n.get_data()), "l": "", "r": "", "p": "", "h": 0, "c": "",
                 "q": enc.item(None), "k": []}
            if ty in LISTS:
                r["r"] = self.name(n.get_next())
                if ty in ("doubly", "prio"):
                    r["l"] = self.name(n.get_prev())
                if ty == "skip":
                    r["p"] = self.name(n.get_down())
            elif ty == "tree":
                r["k"] = [["", self.name(c)] for c in n.get_children()]
            elif ty == "trie":
                r["k"] = [[c, self.name(n.get_child(c))] for c in n.get_characters()]
                r["p"] = self.name(n.get_parent())
            else:
                r["l"], r["r"] = self.name(n.get_left()), self.name(n.get_right())
                if ty in SEARCH:
                    r["p"] = self.name(n.get_parent())
            if ty == "avl":
                r["h"] = n.get_height()
            if ty == "rb":
                r["c"] = n.get_color().name
            if ty in ("prio", "treap"):
                r["q"] = enc.item(n.get_priority())
            out[k] = r
        return out

    # ---------------------------------------------------------- random calls
    ANY = [1, 1.0, 2.5, True, False, "a", "b\nc", "", "é", (1, 2), [3], 0, 0.0, -7, "\t", " x ", "ab" * 60 + "\n", 10 ** 20 + 1,
           "\n\n", "\\n", {}, (), b"", 1 / 3, *map(enc.thing, [1, 1, 0], [0, 1, 0])]
    NUM = [1, 2, 3, 4.5, -6, 0, 100, 7.25, 10 ** 9, 2 ** 63 + 1, -2 ** 63 - 1, .1 + .2, -0.5, 1e300, 2 ** 53 + 1]

    def datum(self, rng, ty):
        if ty == "trie":
            return rng.choice(["a", "bc", "", "x\ny", " ", "é", "\t", "A", "ROOT", "$", "ab" * 40, "\r\n"])
        if ty in LISTS[:2] + ["prio", "bin", "tree"]:
            return rng.choice(self.ANY)
        if ty == "skip":
            return rng.choice(self.NUM + [float("inf"), float("-inf")])
        if rng.random() < .12:
            return rng.choice([n.get_data() for k, n in self.n.items() if self.ty[k] in SEARCH] + [1])
        used = [n.get_data() for n in self.n.values()]
        return rng.choice([x for x in self.NUM + list(range(20, 60)) if x not in used])

    def fresh(self, rng, ty):
        x = self.datum(rng, ty)
        d = {"op": "new", "o": "n%d" % len(self.n), "ty": ty, "x": enc.item(x)}
        d["tx"] = show(x.replace("\n", "\\n") if type(x) is str and ty != "trie" else x)
        if ty in ("prio", "treap") and rng.random() < .5:
            d["q"] = enc.item(rng.choice([0, 1, -5, 2.5, 100, 1000, -0.25]))
        if ty == "rb":
            d["f"] = rng.choice(["", "RED", "BLACK"])
        return d

    def rand_op(self, rng, g, i, n):
        if i == 0:
            self.main = rng.choice(g["types"])
            self.mixed = rng.random() < .3
            self.then = None
        if self.then:
            d, self.then = self.then, None
            return d
        if i < 4 or (len(self.n) < 9 and rng.random() < .12):
            if self.mixed:
                fam = [t for t in g["types"] if (t in LISTS) == (self.main in LISTS) and t not in ("trie", "avl", "tree")]
                if self.main not in ("trie", "avl", "tree"):
                    return self.fresh(rng, rng.choice(fam))
            return self.fresh(rng, self.main)
        names = sorted(self.n)
        o = rng.choice(names)
        ty = self.ty[o]
        any_ = lambda: rng.choice(names)
        r = rng.random()
        if r < .06:
            return self.bad(rng, o, ty, names)
        if ty in LISTS:
            c = ["set_next"] * 4 + ["next", "data", "repr", "set_data"]
            c += ["set_prev"] * 4 + ["prev"] if ty in ("doubly", "prio") else []
            c += ["set_down"] * 2 + ["down"] if ty == "skip" else []
            c += ["priority", "set_priority"] if ty == "prio" else []
        elif ty == "tree":
            c = ["set_child"] * 6 + ["set_children"] * 3 + ["data", "repr", "is_leaf", "kids", "swap", "swap"]
        elif ty == "trie":
            c = ["set_child"] * 6 + ["get_child"] * 2 + ["data", "repr", "is_leaf", "kids", "parent"]
        else:
            c = ["left", "right"] * 5 + ["data", "repr", "is_leaf", "kids", "get_left", "get_right", "one_child"] + ["swap"] * 2
            if ty in SEARCH:
                c += ["parent", "grand_parent", "uncle", "sibling", "is_left"] * 2 + ["set_parent"]
            if ty == "avl":
                c += ["height", "left_height", "right_height", "heights", "balanced"] * 2 + ["set_height"] * 3
            if ty == "rb":
                c += ["color", "set_color"]
            if ty == "treap":
                c = [x for x in c if x != "swap"] + ["priority", "set_priority"]
        k = rng.choice(c)
        d = {"op": k, "o": o}
        node = self.n[o]
        if k == "repr":
            if ty in ("prio", "treap"):
                d["tx"] = show(node.get_priority())
            d["f"] = rng.choice(["", "str"])
        elif k == "set_data":
            x = rng.choice(self.ANY if ty != "skip" else self.NUM)
            d.update(x=enc.item(x), tx=show(x.replace("\n", "\\n") if type(x) is str else x))
        elif k == "set_priority":
            d["q"] = enc.item(rng.choice([0, 3, -2, 7.5, 0.0, 0.125, 10 ** 20 + 1, -1e-9, float("inf")]))
        elif k == "set_height":
            d["n"] = rng.choice([0, 1, 2, 3, 4, rng.randrange(5, 40)])
            p = node.get_parent()
            if p is not None:
                s = p.get_left() if p.get_right() is node else p.get_right()
                if s is not None and rng.random() < .7:
                    d["n"] = max(s.get_height() + rng.randint(-2, 2), 0)
                self.then = {"op": rng.choice(["balanced", "balanced", "heights"]), "o": self.name(p)}
        elif k == "set_color":
            d["f"] = rng.choice(["RED", "BLACK"])
        elif k == "swap":
            a = any_()
            if self.ty[a] != ty:
                return {"op": "data", "o": o}
            d["a"] = a
            if ty == "rb":
                same = [b for b in names if b != o and self.ty[b] == "rb" and self.n[b].get_data() == node.get_data()]
                d["a"] = rng.choice(same) if same and rng.random() < .8 else a
        elif k == "set_child" and ty == "tree":
            d["a"] = any_()
        elif k == "set_children":
            d.update(f=rng.choice(["", "", "tuple", "gen"]))
            d["as"] = [any_() for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        elif k == "set_child":
            d.update(ch=rng.choice(["a", "b", "ab", ""]), a=any_())
        elif k == "get_child":
            d["ch"] = rng.choice(["a", "b", "ab", "", "z"])
        elif k in ("set_next", "set_prev", "set_down"):
            d["a"] = any_() if rng.random() < .8 or k == "set_down" else ""
            if k == "set_down" and self.ty[d["a"]] != "skip":
                d["a"] = o
        elif k in ("left", "right", "set_parent"):
            if ty in SEARCH and rng.random() < .15:
                d["a"] = ""
                return d
            if k == "set_parent":
                a = any_()
                if self.ty[a] not in SEARCH:
                    return {"op": "parent", "o": o}
                d["a"] = a
                return d
            # mostly links that keep trees ordered
            cand = [a for a in names if a != o and self.fits(ty, self.ty[a])]
            if ty in SEARCH and rng.random() < .9:
                lt = k == "left"
                cand = [a for a in cand if (self.n[a].get_data() < node.get_data()) == lt and self.n[a].get_parent() is None
                        and self.above(node, self.n[a]) is False]
                if (node.get_left() if lt else node.get_right()) is not None and rng.random() < .7:
                    cand = []
            if not cand:
                return {"op": "data", "o": o}
            d["a"] = rng.choice(cand)
        elif k in ("is_left",) and node.get_parent() is None:
            return {"op": "parent", "o": o}
        return d

    def above(self, n, x):
        seen = 0
        while n is not None and seen < 20:
            if n is x:
                return True
            n = n.get_parent()
            seen += 1
        return seen >= 20

    @staticmethod
    def fits(o, a):
        if o in ("bin", "heap"):
            return a in ["bin", "heap"] + SEARCH
        return a in SEARCH

    def bad(self, rng, o, ty, names):
        if rng.random() < .3:
            if ty in SEARCH + ["skip", "heap"]:
                x = rng.choice(["1", True, [1]])
            else:
                x = rng.choice([None, 3]) if ty == "trie" else None
            return {"op": "new", "o": "z", "ty": ty, "x": enc.item(x)}
        if ty in ("prio", "treap") and rng.random() < .4:
            if rng.random() < .5:
                return {"op": "set_priority", "o": o, "q": enc.item(rng.choice(["1", True, [1], None]))}
            return {"op": "new", "o": "z", "ty": ty, "x": enc.item(3), "q": enc.item(rng.choice(["1", True, [2]]))}
        if ty == "avl" and rng.random() < .4:
            return {"op": "set_height", "o": o, "n": -1, "f": rng.choice(["", "bad", "text", "bool", "nil"])}
        if ty == "rb" and rng.random() < .4:
            f = rng.choice(["GREEN", "NIL", "ONE", "TRUE"])
            return rng.choice([{"op": "set_color", "o": o, "f": f},
                               {"op": "new", "o": "z", "ty": "rb", "x": enc.item(3), "f": f}])
        if ty in LISTS:
            k = rng.choice(["set_next"] + ["set_prev"] * (ty in ("doubly", "prio")) + ["set_down"] * (ty == "skip"))
            a = "#"
            if k == "set_down":
                a = rng.choice(["", "#"] + [x for x in names if self.ty[x] != "skip"])
            elif ty in ("doubly", "prio"):
                a = rng.choice(["#"] + [x for x in names if self.ty[x] in ("node", "skip")])
            return {"op": k, "o": o, "a": a}
        if ty == "tree":
            c = rng.randrange(4)
            if c == 0:
                return {"op": "swap", "o": o, "a": "#", "f": rng.choice(["", "bad2"])}
            if c == 1:
                return {"op": "set_child", "o": o, "a": rng.choice(["", "#"])}
            k = rng.randint(0, 3)
            return {"op": "set_children", "o": o, "f": rng.choice(["noniter", "bad", "bad"]), "n": rng.randint(0, k),
                    "as": [rng.choice(names) for _ in range(k)]}
        if ty == "trie":
            return {"op": "set_child", "o": o, "a": rng.choice(["#", "", o]), "f": "badkey", "ch": "a"} if rng.random() < .5 \
                else {"op": "set_child", "o": o, "a": rng.choice(["#", ""]), "ch": "a"}
        k = rng.choice(["left", "right", "swap"] + ["set_parent"] * (ty in SEARCH))
        a = "#"
        if ty in ("bin", "heap") and k != "swap":
            a = rng.choice(["", "#"])
        elif ty in SEARCH and k != "swap":
            a = rng.choice(["#"] + [x for x in names if self.ty[x] in ("bin", "heap")])
        return {"op": k, "o": o, "a": a, "f": rng.choice(["", "bad2"]) if k == "swap" else ""}


AD = "checks.kin:Nodes"


def mc(ty, n, depth, **kw):
    return Mc("KinMC", """SPECIFICATION Spec
CONSTANTS Ty = "%s" N = %d Depth = %d
VIEW View
INVARIANTS Refused Linked Kin EmitState
CHECK_DEADLOCK FALSE
""" % (ty, n, depth), emit=True, adapter=AD, acfg={}, **kw)


def build(pid):
    if pid == "N01":
        mcs = [mc(t, 3 if t != "prio" else 2, 2, quick_only=True) for t in LISTS] + [mc(t, 3, 3, thorough_only=True) for t in LISTS]
        types = LISTS
    else:
        mcs = [mc(t, 4 if t != "trie" else 2, 3, quick_only=True) for t in TREES if t not in ("heap", "bst", "tree")]
        mcs += [mc(t, 3, 2, quick_only=True) for t in ("heap", "bst", "tree")]
        mcs += [mc(t, 5 if t not in ("trie", "tree") else 3, 4 if t in SEARCH else 3, thorough_only=True) for t in TREES]
        types = TREES
    return Check(pid, "KinTrace", mcs, [Rand(AD, {"types": types}, 450, 60, {})], lambda c: True)
