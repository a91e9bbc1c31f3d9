"""What the collections look like when printed (spec: Pictures)."""
import random
import warnings

from checks import pools
from checks.interplay import call_list
from checks.search import CLASS, listed, walk
from vlib import enc
from vlib.core import Check, Mc, Rand

CODES = lambda s: [ord(c) for c in s]
LONG = pools.EXACT + [1 / 3, -1 / 7, 123456.789012, 2 ** 100, -2 ** 70 - 1, 1e-300, 10 ** 70 + 1, -10 ** 99, 2 ** 420]
LISTS = ["ll", "dll", "cll", "stack", "queue", "deque", "pq", "skip"]
TREES = ["tree", "trie", "radix", "suffix", "bin", "bst", "avl", "rb", "splay", "treap", "min", "max"]


def shape(n):
    """The shape of a binary tree of nodes."""
    return listed(n, lambda m: 0)


def texts(n, text):
    return [CODES(text(m)) for m in walk(n)]


def word_end(o, n):
    """Whether a word ends at a node of a trie."""
    if hasattr(n, "_is_word"):
        return n._is_word
    if not hasattr(o, "has_prefix"):            # the nodes of a suffix trie end no words
        return False
    path, m = "", n
    while m.get_parent() is not None:
        path, m = m.get_data() + path, m.get_parent()
    return path in o


class Pictures:
    DEFAULT = {"op": "", "kind": "", "xs": [], "ys": [], "g": [], "b": [], "seed": 0, "f": "", "n": 0}

    def __init__(self, cfg):
        self.v, self.side = {}, 0

    def do(self, op):
        import extra
        k, f = op["kind"], op["f"]
        random.seed(op["seed"])
        o = self.make(extra, op)
        flags = {"pq": extra.PriorityQueue, "treap": extra.Treap}
        on = [c for n, c in flags.items() if (f in ("show", "both") if n == k else f in ("other", "both"))]
        for c in on:
            c.SHOW_PRIORITY = True
        try:
            rng = random.Random(op["seed"])
            for _ in range(op["n"]):        # changed and printed, again and again
                repr(o)
                for _ in range(rng.choice([1, 1, 2, 3])):
                    self.change(k, o, rng)
            v = self.view(extra, k, o, f in ("show", "both"))
            out, again = repr(o), str(o)
            after = self.view(extra, k, o, f in ("show", "both"))
        finally:
            for c in on:
                c.SHOW_PRIORITY = False
        self.side = 1 - self.side        # so that every event carries its view
        self.v = {"ab"[self.side]: v}
        if out != again:
            return enc.res("odd", s="repr and str differ")
        if v != after:
            return enc.res("odd", s="changed by printing")
        return enc.r_val(out)

    def change(self, k, o, rng):
        """One change of a structure, if it can be made."""
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if k in ("tree", "bin"):
                ns, i = [o._root] if o._root is not None else [], 0
                while i < len(ns):
                    ns += ns[i].get_children()
                    i += 1
                if k == "bin" and rng.random() < .4:
                    return o.invert()
                if not ns:
                    o._root = type(self.node({"tx": [97], "k": []}))("x") if k == "tree" else self.bnode([{"d": enc.item(1), "l": [], "r": []}])
                    return
                n = rng.choice(ns)
                if rng.random() < .4:
                    return type(n).swap(n, rng.choice(ns))
                new = type(n)(rng.choice(self.WORDS))
                if k == "tree":
                    return n.set_child(new) if rng.random() < .8 else n.set_children([new])
                return rng.choice([n.set_left, n.set_right])(new)
            try:
                if k in ("ll", "dll", "cll") and len(o) and rng.random() < .4:
                    i, x = rng.randrange(len(o)), rng.choice(self.WORDS + [7, 123])
                    return rng.choice([lambda: o.__setitem__(i, x), lambda: o.__setitem__(i, x), lambda: o.__delitem__(i),
                                       lambda: o.insert(i, x)])()
                call_list(k, o, rng)()
            except (IndexError, ValueError, TypeError, OverflowError):
                pass

    def make(self, extra, op):
        k = op["kind"]
        xs = [enc.unitem(x) for x in op["xs"]]
        ys = [enc.unitem(x) for x in op["ys"]]
        if k in ("ll", "dll", "cll"):
            return {"ll": extra.LinkedList, "dll": extra.DoublyLinkedList, "cll": extra.CircularLinkedList}[k](xs)
        if k in ("stack", "queue", "deque"):
            o = {"stack": extra.Stack, "queue": extra.Queue, "deque": extra.Deque}[k]()
            for x in xs:
                (o.push if k == "stack" else o.enqueue)(x)
        elif k == "pq":
            o = extra.PriorityQueue()
            for i, x in enumerate(xs):
                o.enqueue(x, ys[i] if i < len(ys) else None)
        elif k == "skip":
            o = extra.SkipList(xs)
        elif k == "tree":
            o = extra.Tree()
            o._root = self.node(op["g"][0]) if op["g"] else None
        elif k == "suffix":
            o = extra.SuffixTrie(xs[0])
        elif k in ("trie", "radix"):
            o = extra.Trie() if k == "trie" else extra.RadixTrie()
            for x in xs:
                o.insert(x)
            for y in ys:
                o.remove(y)
        elif k == "bin":
            o = extra.BinaryTree()
            o._root = self.bnode(op["b"])
        elif k in ("min", "max"):
            o = (extra.MinHeap if k == "min" else extra.MaxHeap).heapify(xs)
        else:
            o = getattr(extra, CLASS[k])()
            for i, x in enumerate(xs):
                o.insert(x) if k != "treap" or i >= len(ys) else o.insert(x, ys[i])
            if k != "treap":
                for y in ys:
                    o.remove(y)
        return o

    def view(self, extra, k, o, show):
        v = {}
        if k in ("ll", "dll", "cll"):
            v["labels"] = [CODES(str(x)) for x in o]
        elif k in ("stack", "queue", "deque"):
            v["labels"] = [CODES(str(x)) for x in o._container]
        elif k == "pq":
            n, ls = o._container._head, []
            while n is not None:
                ls.append("%s|P:%s" % (n.get_data(), n.get_priority()) if show else str(n.get_data()))
                n = n.get_next()
            v["labels"] = [CODES(x) for x in ls]
        elif k == "skip":
            rows = [[n for n in ll] for ll in o._level_lists]
            name = lambda x: "-∞" if x == float("-inf") else "∞" if x == float("inf") else str(x)
            v["labels"] = [CODES(name(x)) for x in rows[0]]
            v["levels"] = [[x in r for x in rows[0]] for r in rows]
        elif k == "tree":
            v["g"] = [] if o._root is None else [self.gview(o._root, lambda n: str(n.get_data()))]
        elif k in ("trie", "radix", "suffix"):
            root = o._root if k != "suffix" else next(x for x in vars(o).values() if isinstance(x, extra.RadixTrie))._root
            v["g"] = [self.gview(root, lambda n: n.get_data() + (" ✓" if word_end(o, n) else ""))]
        elif k in ("min", "max"):
            h = o.to_list()
            v["b"], v["labels"] = self.hview(h), [CODES(str(h[i])) for i in self.horder(h, 0)]
        else:
            text = lambda n: str(n.get_data())
            if k == "rb":
                text = lambda n: "%s|%s" % (n.get_data(), n.get_color().name[0])
            if k == "treap" and show:
                text = lambda n: "%s|P:%s" % (n.get_data(), n.get_priority())
            v["b"], v["labels"] = shape(o._root), texts(o._root, text)
        return v

    def node(self, g):
        import extra
        n = extra.TreeNode("".join(map(chr, g["tx"])))
        for c in g["k"]:
            n.set_child(self.node(c))
        return n

    def bnode(self, b):
        import extra
        if not b:
            return None
        n = extra.BinaryTreeNode(enc.unitem(b[0]["d"]))
        for side, c in (("l", n.set_left), ("r", n.set_right)):
            if b[0][side]:
                c(self.bnode(b[0][side]))
        return n

    def gview(self, n, text):
        return {"tx": CODES(text(n)), "k": [self.gview(c, text) for c in n.get_children()]}

    def hview(self, h):
        """The heap as a binary tree listed in pre-order."""
        return [{"d": enc.item(h[i]), "m": 0, "k": (2 * i + 1 < len(h)) + 2 * (2 * i + 2 < len(h))} for i in self.horder(h, 0)]

    def horder(self, h, i):
        return [] if i >= len(h) else [i] + self.horder(h, 2 * i + 1) + self.horder(h, 2 * i + 2)

    def project(self, op):
        return self.v

    WORDS = ["a", "bb", "x y", "ccc\nd", "", " ", "é∂", "long text here", "7", "}", "ab", "abc", "abd", "b", "a\tb", " lead", "trail ", "\t", "%s {}", "日本語",
             "x" * 40, "-", "None", "\\n"]

    def rand_op(self, rng, g, i, n):
        k = rng.choice(g["kinds"])
        d = {"op": "draw", "kind": k, "seed": rng.randint(0, 10 ** 6)}
        most = g.get("most", 14)
        m = pools.size(rng, most) if most > 20 else rng.choice([0, 1, 2, 3, 5, rng.randint(0, most)])
        nums = lambda m: enc.items([rng.choice([rng.randint(-20, 20), rng.randint(-2000, 2000), rng.randint(-9, 9) / 2, rng.choice(LONG)]) for _ in range(m)])
        if k in ("ll", "dll", "cll", "stack", "queue", "deque", "pq"):
            d["xs"] = enc.items([rng.choice(self.WORDS + [1, 2.5, -30, True, (1, 2), [3], 10 ** 9]) for _ in range(m)])
            if k == "pq":
                d["ys"] = nums(rng.randint(0, m))
                d["f"] = rng.choice(["", "show", "other", "both"])
        elif k == "skip":
            d["xs"] = nums(m)
            if rng.random() < .2:
                d["xs"].append(enc.item(float("inf")))
        elif k in ("tree", "bin"):
            if rng.random() > .05:
                d["g" if k == "tree" else "b"] = [self.r_tree(rng)] if k == "tree" else self.r_b(rng, rng.randint(1, 5)) if rng.random() < .6 else self.r_s(rng, pools.shape(rng, most))
        elif k in ("trie", "radix"):
            d["xs"] = enc.items([rng.choice([w for w in self.WORDS if w.strip()] + ["".join(rng.choice("ab") for _ in range(rng.randint(1, 5)))] * 14)
                                 for _ in range(m)])
            d["ys"] = [rng.choice(d["xs"]) for _ in range(rng.randint(0, len(d["xs"])) // 2)] if d["xs"] else []
        elif k == "suffix":
            d["xs"] = enc.items(["".join(rng.choice(rng.choice(["abc", "ab", "a ", "01a"])) for _ in range(rng.randint(1, 12)))])
        else:
            d["xs"] = nums(m)
            d["ys"] = nums(len(d["xs"])) if k == "treap" else [] if k in ("min", "max") else \
                [rng.choice(d["xs"]) for _ in range(m // 3)]
            if k == "treap":
                d["f"] = rng.choice(["", "show", "other", "both"])
        small = g.get("most", 14) <= 48
        if small and rng.random() < .4:
            d["n"] = rng.choice([1, 1, 2, 3, 6])
        if not d.get("f") and rng.random() < .1:
            d["f"] = "other"
        return d

    def r_chain(self, rng, depth):
        """Deep, with a branch here and there."""
        n = {"tx": CODES("end"), "k": []}
        for i in range(depth):
            leaf = lambda: {"tx": CODES(rng.choice(self.WORDS)), "k": []}
            n = {"tx": CODES("%d" % i), "k": rng.choice([[n], [n], [n, leaf()], [leaf(), n], [leaf(), n, leaf()]])}
        return n

    def r_tree(self, rng):
        c = rng.random()
        if c < .06:
            return self.r_chain(rng, rng.choice([12, 35, 60, 90]))
        if c < .1:
            return {"tx": CODES("wide"), "k": [self.r_g(rng, rng.choice([0, 0, 1])) for _ in range(rng.choice([9, 12, 33, 60]))]}
        return self.r_g(rng, 4)

    def r_g(self, rng, depth):
        return {"tx": CODES(rng.choice(self.WORDS)),
                "k": [self.r_g(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3]) if depth else 0)]}

    def r_s(self, rng, t):
        return [] if t is None else [{"d": enc.item(rng.choice(self.WORDS + [1, 22, 333, -4.5, True])), "m": 0,
                                      "l": self.r_s(rng, t[0]), "r": self.r_s(rng, t[1])}]

    def r_b(self, rng, depth):
        if depth == 0 or rng.random() < .2:
            return []
        return [{"d": enc.item(rng.choice(self.WORDS + [1, 22, 333, -4.5, True])), "m": 0,
                 "l": self.r_b(rng, depth - 1), "r": self.r_b(rng, depth - 1)}]


AD = "checks.pictures:Pictures"


def mc(kind, n, **kw):
    return Mc("PictureMC", """SPECIFICATION Spec
CONSTANTS Kind = "%s" Max = %d
INVARIANTS Inv EmitState
""" % (kind, n), emit=True, adapter=AD, **kw)


def build(pid):
    if pid == "V01":
        mcs = [mc("list", 4, quick_only=True), mc("list", 6, thorough_only=True)]
        kinds = LISTS
    else:
        mcs = [mc("tree", 4, quick_only=True), mc("bin", 4, quick_only=True),
               mc("tree", 5, thorough_only=True), mc("bin", 5, thorough_only=True)]
        kinds = TREES
    return Check(pid, "PictureTrace", mcs, [Rand(AD, {"kinds": kinds}, 500, 14), Rand(AD, {"kinds": kinds[-1:] * 2 + kinds}, 100, 10),
                                                     Rand(AD, {"kinds": kinds, "most": 48}, 80, 10), Rand(AD, {"kinds": kinds, "most": 150}, 16, 10)],
                 lambda c: True)
