"""TreeNode/Tree and BinaryTreeNode/BinaryTree (spec: NodeWorld)."""
import contextlib
import os
import shutil
import tempfile
from itertools import islice

from checks.pools import shape, twin
from checks.search import SHAPE, ask, lists
from vlib import enc
from vlib.core import Check, Mc, Rand

CAP = 3000
NODIR = {"n": enc.item(None), "d": False, "k": []}
NONEST = {"f": "v", "x": enc.item(None), "k": []}


def plain(n):
    """The nested Python object a nested description stands for."""
    if n["f"] == "v":
        return enc.unitem(n["x"])
    return (tuple if n["f"] == "t" else list)(plain(k) for k in n["k"])


def build_dir(parent, d):
    p = os.path.join(parent, enc.unitem(d["n"]))
    if d["d"]:
        os.mkdir(p)
        for k in d["k"]:
            build_dir(p, k)
    else:
        with open(p, "w"):
            pass
    return p


class Nodes:
    DEFAULT = {"op": "", "o": "A", "a": "", "as": [], "x": enc.item(None), "f": "", "dir": NODIR, "n": NONEST}
    ASKS = {"data", "kids", "is_leaf", "one_child", "contains", "len", "is_empty", "iter", "traverse", "per_level", *SHAPE}

    @property
    def o(self):
        return {**self.n, **self.t}


    def __init__(self, cfg):
        import extra
        self.bin = cfg["kind"] == "bin"
        self.Node = extra.BinaryTreeNode if self.bin else extra.TreeNode
        self.Tree = extra.BinaryTree if self.bin else extra.Tree
        self.n, self.t, self.found, self.count = {}, {}, {}, 0

    def do(self, op):
        k, f, o = op["op"], op["f"], op["o"]
        if k == "node":
            self.n[o] = self.Node(enc.unitem(op["x"]))
            return enc.NONE
        if k == "tree":
            self.t[o] = self.Tree()
            return enc.NONE
        if k == "root":
            self.t[o]._root = self.n[op["a"]]
            return enc.NONE
        if k == "parse":
            t = self.Tree.parse(plain(op["n"]))
            if type(t) is not self.Tree:
                return enc.res("odd", s=type(t).__name__)
            self.t[o] = t
            return enc.NONE
        if k == "path":
            return self.path(op)
        if o in self.t:
            t = self.t[o]
            if k == "len":
                return enc.r_int(len(t))
            if k == "is_empty":
                return enc.r_bool(t.is_empty())
            if k == "contains":
                return enc.r_bool(enc.unitem(op["x"]) in t)
            if k == "clear":
                return enc.r_none(t.clear())
            if k == "invert":
                return enc.r_none(t.invert())
            return ask(t, k, f)
        n = self.n[o]
        a = self.n[op["a"]] if op["a"] else 5
        if k == "child":
            return enc.r_none(n.set_child(a))
        if k == "left":
            return enc.r_none(n.set_left(a))
        if k == "right":
            return enc.r_none(n.set_right(a))
        if k == "swap":
            return enc.r_none(self.Node.swap(n, a) if f != "bad2" else self.Node.swap(a, n))
        if k == "children":
            if f == "noniter":
                return enc.r_none(n.set_children(5))
            c = [self.n[i] for i in op["as"]]
            if f == "bad":
                c.append(5)
            src = tuple(c) if f == "tuple" else (x for x in c) if f == "gen" else c
            r = enc.r_none(n.set_children(src))
            c.append(None)
            return r
        if k == "data":
            return enc.r_val(n.get_data())
        if k == "kids":
            return enc.r_items([c.get_data() for c in n.get_children()])
        if k == "is_leaf":
            return enc.r_bool(n.is_leaf())
        if k == "one_child":
            return enc.r_bool(n.has_one_child())
        raise KeyError(k)

    def path(self, op):
        f = op["f"]
        if f == "notstr":
            self.t[op["o"]] = self.Tree.from_path(__import__("pathlib").Path("/verif"))
            return enc.NONE
        top = tempfile.mkdtemp(prefix="vpath.")
        cwd = os.getcwd()
        try:
            if f == "missing":
                p = os.path.join(top, "nothing")
            else:
                p = build_dir(top, op["dir"])
                real = p
                if f == "slash" and op["dir"]["d"]:
                    p = p + "/"
                elif f == "rel":
                    os.chdir(top)
                    p = enc.unitem(op["dir"]["n"])
                elif f == "dot" and op["dir"]["d"]:
                    os.chdir(p)
                    p = "."
                elif f == "up" and op["dir"]["d"]:
                    sub = [k for k in op["dir"]["k"] if k["d"]]
                    if sub:
                        os.chdir(os.path.join(p, enc.unitem(sub[0]["n"])))
                        p = ".."
            t = self.Tree.from_path(p)
            if type(t) is not self.Tree:
                return enc.res("odd", s=type(t).__name__)
            self.t[op["o"]] = t
            return enc.NONE
        finally:
            os.chdir(cwd)
            shutil.rmtree(top, ignore_errors=True)

    def project(self, op):
        ids = {id(n): k for k, n in self.n.items()}
        for k, n in self.found.items():
            ids[id(n)] = k
        out, todo = {}, list(self.n.values())
        for k, t in self.t.items():
            if t._root is not None:
                todo.append(t._root)
        done = set()
        for k in list(self.found):
            todo.append(self.found[k])
        todo.reverse()
        while todo:
            n = todo.pop()
            if id(n) in done:
                continue
            done.add(id(n))
            if id(n) not in ids:
                ids[id(n)] = "p%d" % self.count
                self.count += 1
                self.found[ids[id(n)]] = n
            todo += list(n.get_children())[::-1]
            if len(done) > CAP:
                raise ValueError("too many nodes")
        name = lambda n: "" if n is None else ids[id(n)]
        for n in list(self.n.values()) + list(self.found.values()):
            ks = [n.get_left(), n.get_right()] if self.bin else n.get_children()
            out[name(n)] = {"d": enc.item(n.get_data()), "k": [name(c) for c in ks]}
        for k, t in self.t.items():
            out[k] = {"d": enc.item(None), "k": [] if t._root is None else [name(t._root)]}
        return out

    # ---------------------------------------------------------- random calls
    POOL = [1, 2, 3, 1.0, True, False, 0, "a", "b", "a\nb", "", "abc", (1, 2), [1], 2.5, -7, 10 ** 9, "é", " x ", *map(enc.thing, [1, 1, 0, 3], [0, 1, 0, 0])]

    def rand_op(self, rng, g, i, n):
        if i == 0:
            self.pool = rng.choice([self.POOL, self.POOL, [1, 2, 3], list(range(100)), ["a", "bb", "ccc", "d\n"], [0, 0.0, False, 1, 1.0, True]])
            self.limit = g.get("nodes", 14)
            self.shaped, self.last, self.todo = 0, "A", None
            return {"op": "tree", "o": "A"}
        if self.todo:
            d, self.todo = self.todo, None
            return d
        r = rng.random()
        if i < 3 and g.get("made"):
            return self.r_made(rng)
        if r < g.get("made", .03):
            return self.r_made(rng)
        if self.shaped and rng.random() < .5:
            self.shaped -= 1
            return {"op": rng.choice(["balanced", "perfect", "strict", "leftview", "rightview", "height", "leaves"]),
                    "o": self.last}
        names = sorted(self.n) + sorted(self.found)
        pick = dict(self.n)
        pick.update(self.found)
        if (len(self.n) < self.limit and r < .45) or not names:
            x = rng.choice(self.pool)
            if self.n and rng.random() < .2:
                x = twin(rng, self.n[rng.choice(sorted(self.n))].get_data(), True)
            return {"op": "node", "o": "n%d" % len(self.n), "x": enc.item(x)}
        for k, v in self.found.items():
            self.n[k] = v
        self.found = {}
        o = rng.choice(names)
        if r < .75:
            # link without making cycles or sharing
            par = {}
            for k, v in pick.items():
                for c in v.get_children():
                    par[id(c)] = k
            free = [k for k in names if id(pick[k]) not in par]
            up, u = set(), o
            while u is not None:
                up.add(u)
                u = par.get(id(pick[u]))
            cand = [k for k in free if k not in up]
            if cand:
                a = rng.choice(cand)
                if not self.bin:
                    if rng.random() < .85:
                        return {"op": "child", "o": o, "a": a}
                    own = [k for k in names if any(pick[k] is c for c in pick[o].get_children())]
                    ch = list({*own, a} - {k for k in own if rng.random() < .3})
                    ch.sort()
                    rng.shuffle(ch)
                    return {"op": "children", "o": o, "as": ch, "f": rng.choice(["list", "tuple", "gen"])}
                return {"op": rng.choice(["left", "right"]), "o": o, "a": a}
            r = .8
        if not self.bin and rng.random() < .25:
            d = self.r_move(rng, names, pick)
            if d:
                return d
        if r < .79:
            free = [k for k in names]
            return {"op": "root", "o": rng.choice(sorted(self.t)), "a": rng.choice(free)}
        if r < .82:
            same = [k for k in names if pick[k].get_data() == pick[o].get_data()
                    and type(pick[k].get_data()) is not type(pick[o].get_data())]
            return {"op": "swap", "o": o, "a": rng.choice(same if same and rng.random() < .6 else names)}
        if r < .83:
            return {"op": "clear", "o": rng.choice(sorted(self.t))}
        if r < .84:
            return {"op": "tree", "o": rng.choice("AB")}
        if r < .86 and self.bin:
            return {"op": "invert", "o": rng.choice(sorted(self.t))}
        if r < .89:
            return {"op": rng.choice(["data", "kids", "is_leaf"] + ["one_child"] * self.bin), "o": o}
        if r < .91:
            c = rng.randrange(4)
            if c == 0:
                return {"op": rng.choice(["left", "right"] if self.bin else ["child"]), "o": o}
            if c == 1:
                return {"op": "swap", "o": o, "f": rng.choice(["", "bad2"])}
            if c == 2:
                return {"op": "children", "o": o, "f": rng.choice(["noniter", "bad"])}
            return {"op": "node", "o": "z", "x": rng.choice([enc.item(None), dict(enc.item(None), t="extra", p="Node")])}
        t = rng.choice(sorted(self.t))
        ks = ["len", "is_empty", "height", "depth", "leaves", "iter", "to_list", "per_level", "contains", "contains", "contains", "contains"]
        if self.bin:
            ks += ["pre", "dfs", "post", "in", "bfs", "balanced", "perfect", "strict", "leftview", "rightview", "traverse"]
        k = rng.choice(ks)
        d = {"op": k, "o": t}
        if k == "contains":
            d["x"] = enc.item(rng.choice(list(self.pool) + [99, "zz"]))
            if rng.random() < .6:
                d["x"] = enc.item(pick[rng.choice(names)].get_data())
            if rng.random() < .3:
                d["x"] = enc.item(twin(rng, enc.unitem(d["x"]), True))
        if k == "traverse":
            d["f"] = rng.choice(["", "inorder", "postorder", "preorder", "depth-first", "breadth-first", "InOrder", "notstr", "x", " inorder", "in-order", ""])
        return d

    def r_move(self, rng, names, pick):
        """A child leaves its parent, and the next call gives it to another node."""
        par = [k for k in names if pick[k].get_children()]
        if not par:
            return None
        p = rng.choice(par)
        name = {id(n): k for k, n in pick.items()}
        ks = [name[id(c)] for c in pick[p].get_children() if id(c) in name]
        if len(ks) != len(pick[p].get_children()):
            return None
        c = rng.choice(ks)
        below, todo = set(), [pick[c]]
        while todo:
            m = todo.pop()
            below.add(id(m))
            todo += m.get_children()
        to = [k for k in names if id(pick[k]) not in below]
        self.todo = {"op": "child", "o": rng.choice(to), "a": c}
        return {"op": "children", "o": p, "as": [k for k in ks if k != c], "f": "list"}

    NAMES = ["a", "b", "B", "10", "9", ".h", "a.txt", "a b", "é", "ζ", "x\ny", "_", "zz", "a-b", "A"]

    def r_dir(self, rng, name, depth):
        ks, used = [], set()
        many = name in ("top", "10") and depth < 2 and rng.random() < .1
        for i in range(rng.choice([30, 90]) if many else rng.choice([0, 0, 1, 2, 3, 5])):
            nm = "%d" % i if many else rng.choice(self.NAMES)
            if nm in used:
                continue
            used.add(nm)
            if depth and rng.random() < (.05 if many else .5):
                ks.append(self.r_dir(rng, nm, depth - 1))
            else:
                ks.append({"n": enc.item(nm), "d": False, "k": []})
        return {"n": enc.item(name), "d": True, "k": ks}

    def r_nest(self, rng, depth):
        r = rng.random()
        if r < .01:
            return {"f": "v", "x": enc.item(None), "k": []}
        if depth == 0 or r < .3:
            x = rng.choice([p for p in self.pool if type(p) not in (list, tuple)])
            return {"f": "v", "x": enc.item(x), "k": []}
        n = rng.choice([1, 2, 3, 3, 3, 3, 3, 3] + ([0, 4] if r < .35 else []))
        ks = [self.r_nest(rng, 0)] + [self.r_nest(rng, depth - 1) for _ in range(n - 1)]
        return {"f": rng.choice("lt"), "x": enc.item(None), "k": ks[:n]}

    def r_shaped(self, rng, t):
        x = rng.choice([p for p in self.pool if type(p) not in (list, tuple)])
        leaf = {"f": "v", "x": enc.item(x), "k": []}
        ks = [k for k in t if k is not None]
        if not ks and rng.random() < .7:
            return leaf
        return {"f": rng.choice("lt"), "x": enc.item(None), "k": [leaf] + [self.r_shaped(rng, k) for k in ks]}

    def r_made(self, rng):
        o = rng.choice("AB")
        if self.bin:
            if rng.random() < .4:
                self.shaped, self.last = 3, o
                n = self.r_shaped(rng, shape(rng, rng.choice([7, 31, 80])))
            else:
                n = self.r_nest(rng, rng.choice([1, 3, 6]))
            return {"op": "parse", "o": o, "n": n}
        r = rng.random()
        if r < .08:
            return {"op": "path", "o": o, "f": rng.choice(["missing", "notstr"])}
        d = self.r_dir(rng, rng.choice(["top", "10", "d\ne"]), rng.randint(0, 3))
        if r < .15:
            d = {"n": enc.item("file"), "d": False, "k": []}
        return {"op": "path", "o": o, "f": rng.choice(["abs", "slash", "rel", "dot", "up"]), "dir": d}


AD = "checks.nodes:Nodes"


def mc(kind, nodes, vals, **kw):
    return Mc("NodeMC", """SPECIFICATION Spec
CONSTANTS Kind = "%s" MaxNodes = %d Vals = %d
VIEW View
INVARIANTS Sane Refused Sorted EmitState
""" % (kind, nodes, vals), emit=True, adapter=AD, acfg={"kind": kind}, **kw)


def build(pid):
    kind = {"T01": "tree", "T02": "bin"}[pid]
    cfg = {"kind": kind}
    return Check(pid, "NodeTrace",
                 [mc(kind, 5, 1, quick_only=True), mc(kind, 4, 2), mc(kind, 6, 2, thorough_only=True)],
                 [Rand(AD, {}, 300, 80, cfg), Rand(AD, {"nodes": 40}, 60, 150, cfg), Rand(AD, {"made": .2}, 60, 60, cfg), Rand(AD, {"nodes": 9}, 6, 500, cfg)],
                 lambda c: True, trace_cfg='CONSTANT Kind = "%s"\n' % kind)
