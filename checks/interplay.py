"""Reading without changing, and structures that keep out of one another's way
(specs: ReadWorld, ApartWorld), on structures of every kind."""
import hashlib
import json
import os
import random
import warnings
from itertools import islice

from vlib import enc
from vlib.core import Check, Mc, Rand

CAP = 2000
KINDS = ["ll", "dll", "cll", "skip", "stack", "queue", "deque", "pq", "tree", "bin", "bst", "avl", "rb", "splay",
         "treap", "min", "max", "trie", "radix", "suffix"]
CLS = {"ll": "LinkedList", "dll": "DoublyLinkedList", "cll": "CircularLinkedList", "skip": "SkipList",
       "stack": "Stack", "queue": "Queue", "deque": "Deque", "pq": "PriorityQueue", "tree": "Tree",
       "bin": "BinaryTree", "bst": "BST", "avl": "AVL", "rb": "RedBlackTree", "splay": "SplayTree",
       "treap": "Treap", "min": "MinHeap", "max": "MaxHeap", "trie": "Trie", "radix": "RadixTrie",
       "suffix": "SuffixTrie"}
LISTS = {"ll", "dll", "cll"}
STORES = {"stack", "queue", "deque", "pq"}
SEARCH = {"bst", "avl", "rb", "splay", "treap"}
HEAPS = {"min", "max"}
TRIES = {"trie", "radix"}


def text(v, deep=0):
    """What a value is, as text."""
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(text(x, deep) for x in v) + "]"
    if enc.is_extra(v):
        if deep > 3:
            return "..."
        if hasattr(v, "get_data"):
            return type(v).__name__ + ":" + text(v.get_data(), deep + 1)
        if hasattr(v, "__iter__"):
            return type(v).__name__ + text(list(islice(iter(v), CAP)), deep + 1)
        return type(v).__name__ + " " + repr(v)
    return repr(v)


def short(s):
    return s if len(s) < 90 else s[:40] + "#" + hashlib.sha1(s.encode()).hexdigest()


def ans(fn):
    """The answer of a call, as text."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            r = text(fn())
        except Exception as e:
            r = "!" + enc.exc_name(e)
    return short(r + "".join(" w:" + w.category.__name__ for w in ws))


def look(k, o):
    return ans(lambda: [repr(o), len(o)])


def node_tree(extra, rng, m):
    t = extra.Tree()
    ns = [extra.TreeNode(rng.choice(["r", 0, "ab", 2.5, "x"]))] if m else []
    for _ in range(m - 1):
        n = extra.TreeNode(rng.choice([0, 1, "leaf", "a b", -3]))
        rng.choice(ns).set_child(n)
        ns.append(n)
    if ns:
        t._root = ns[0]
    return t


def bin_list(rng, m):
    if m <= 0:
        return None
    left = rng.randint(0, m - 1)
    return [rng.choice([0, 1, "a", "bc", 2.5])] + [bin_list(rng, left), bin_list(rng, m - 1 - left)]


def prune(b):
    if b is None:
        return None
    out = [b[0]]
    kids = [prune(x) for x in b[1:]]
    if kids[1] is not None:
        return out + [kids[0] if kids[0] is not None else [9]] + [kids[1]]
    return out + ([kids[0]] if kids[0] is not None else [])


def make(k, rng, m):
    """A structure of kind k with about m items."""
    import extra
    cls = getattr(extra, CLS[k])
    if k in LISTS:
        return cls([rng.choice([0, 1, 2, "a", "b", 1.5, "x\ny"]) for _ in range(m)])
    if k == "skip" or k in SEARCH:
        xs = rng.sample(range(-20, 60), min(m, 60))
        if k == "treap":
            return cls(xs, seed=rng.randint(0, 3))
        return cls(xs)
    if k in HEAPS:
        return cls.heapify([rng.randint(-5, 9) for _ in range(m)])
    if k in STORES:
        o = cls(rng.choice([float("inf"), m + 2, max(m, 1)]))
        for i in range(m):
            x = rng.choice([0, 1, "a", "", 2.5])
            if k == "pq":
                o.enqueue(x, rng.choice([0, 1, 2, -1, 1.5]))
            elif k == "stack":
                o.push(x)
            else:
                o.enqueue(x)
        return o
    if k == "tree":
        return node_tree(extra, rng, m)
    if k == "bin":
        return cls.parse(prune(bin_list(rng, m))) if m else cls()
    if k in TRIES:
        o = cls()
        for w in words(rng, m):
            o.insert(w)
        return o
    return cls("".join(rng.choice("ab") for _ in range(m)) + ("c" if m % 2 else "") or "a")


def words(rng, m):
    out = []
    while len(out) < m:
        w = "".join(rng.choice("abé") for _ in range(rng.randint(1, 5)))
        out.append(w)
    return out


def queries(k, o, twin):
    """Every question a structure of kind k answers; twin is another one."""
    q = [lambda: len(o), lambda: repr(o), lambda: str(o)]
    names = ["is_empty", "to_list", "get_height", "get_depth", "count_leaf_nodes", "get_nodes_per_level", "is_balanced",
             "is_perfect", "is_strict", "preorder_traverse", "inorder_traverse", "postorder_traverse",
             "depth_first_traverse", "breadth_first_traverse", "traverse", "get_leftside_view", "get_rightside_view",
             "get_max", "get_min", "get_black_height", "is_full", "peek", "top", "get_left", "get_right", "copy",
             "to_suffix_array", "get_longest_common_substring", "get_longest_repeated_substring"]
    for n in names:
        if hasattr(o, n):
            q.append(lambda n=n: getattr(o, n)())
    if k in LISTS:
        q += [lambda x=x: x in o for x in (0, 1, "a", "zz", None)]
        q += [lambda x=x: o.count(x) for x in (0, "a")]
        q += [lambda i=i: o[i] for i in (0, 1, -1, 99)] + [lambda: o[0:2], lambda: o[1:]]
        q += [lambda: o == twin, lambda: o != twin, lambda: o < twin, lambda: o <= o, lambda: twin > o, lambda: o >= twin]
        q += [lambda i=i: o.split(i) for i in (0, 1)]
        q += [lambda d=d: o.rotate_left(d, inplace=False) for d in (0, 1, 5)]
        q += [lambda d=d: o.rotate_right(d, inplace=False) for d in (1, 2)]
        q += [lambda: list(reversed(o.to_list())), lambda: [(a, b) for a in o for b in o][:40]]
    elif k in HEAPS or (k in SEARCH and k != "splay") or k == "skip":
        q += [lambda x=x: x in o for x in (0, 3, -4, 10 ** 6)]
        if k == "skip":
            q += [lambda i=i: o[i] for i in (0, 1, 99)]
    elif k in TRIES:
        q += [lambda w=w: w in o for w in ("a", "ab", "", "ba", "é")]
        q += [lambda w=w: o.has_prefix(w) for w in ("a", "b", "zz")]
        q += [lambda w=w: sorted(o.auto_complete(w)) for w in ("", "a", "b")]
    elif k == "suffix":
        q += [lambda w=w: o.has_substring(w) for w in ("a", "ab", "bb", "")]
        q += [lambda w=w: o.count_pattern_occurrences(w) for w in ("a", "ab", "ba")]
        q += [lambda: o.get_lowest_common_ancestor(0, 1), lambda: o.get_lowest_common_ancestor(1, 0)]
    elif k in ("tree", "bin"):
        q += [lambda x=x: x in o for x in (0, "a", "r", "zz")]
    if hasattr(o, "__iter__"):
        q += [lambda: [x == y for x, y in islice(zip(iter(o), iter(o)), CAP)]]
    return q


def drained(k, o):
    """Everything a structure holds, in the order in which it gives it away."""
    if k not in STORES:
        return [text(x) for x in o.to_list()] if hasattr(o, "to_list") else [text(x) for x in o]
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        while not o.is_empty() and len(out) < CAP:
            out.append(text(o.pop() if k == "stack" else o.dequeue()))
    return out


class Reading:
    DEFAULT = {"op": "", "kind": "", "n": 0, "c": 0, "q": 0}

    def __init__(self, cfg):
        self.o, self.cur = None, {}

    def build(self, op):
        random.seed(7)
        return make(op["kind"], random.Random(1000 * op["q"] + op["n"]), op["n"])

    def do(self, op):
        k = op["op"]
        if k == "new":
            self.k, self.cur = op["kind"], {}
            self.o, spare = self.build(op), self.build(op)
            self.twin = make(self.k, random.Random(op["q"] + 5), op["n"])
            self.stored = self.k in STORES
            return enc.res("list", l=drained(self.k, spare) if self.stored else [text(x) for x in islice(iter(self.o), CAP)])
        if k == "open":
            self.cur[op["c"]] = iter(drained(self.k, self.build(op0(self, op)))) if self.stored else iter(self.o)
            return enc.NONE
        if k == "next":
            for x in self.cur[op["c"]]:
                return enc.res("text", s=x if self.stored else text(x))
            return enc.res("end")
        if k == "asks":
            return enc.res("list", l=[ans(f) for f in queries(self.k, self.o, self.twin)])
        if k == "list":
            return enc.res("list", l=drained(self.k, self.o) if self.stored else [text(x) for x in islice(iter(self.o), CAP)])
        raise KeyError(k)

    def project(self, op):
        if op["op"] == "new":
            self.made = op
        if op["op"] == "list" and self.stored:
            return {"o": {"is": self.last}}
        self.last = look(self.k, self.o)
        return {"o": {"is": self.last}}

    def rand_op(self, rng, g, i, n):
        if i == 0:
            return {"op": "new", "kind": rng.choice(KINDS), "n": rng.choice([0, 1, 2, 3, 5, 8, rng.randint(4, g.get("size", 20))]),
                    "q": rng.randint(1, 500)}
        if i == n - 1:
            return {"op": "list"}
        r = rng.random()
        if not self.cur or r < .12:
            return {"op": "open", "c": rng.randint(1, 4)}
        if r < .2:
            return {"op": "asks"}
        return {"op": "next", "c": rng.choice(sorted(self.cur))}


def op0(self, op):
    return self.made


# ------------------------------------------------------------------- apart
def call_list(k, o, rng):
    """One random call that may change a structure of kind k."""
    x = rng.choice([0, 1, 2, "a", "b", 1.5])
    num = rng.choice([-2, 0, 1, 2, 3, 5, 8, 13, 2.5, 40])
    r = rng.random()
    if k in LISTS:
        return rng.choice([lambda: o.add_front(x), lambda: o.add_end(x), lambda: o.insert(rng.randint(0, 3), x),
                           lambda: o.extend(type(o)([x, 1])), lambda: o.remove_front(), lambda: o.remove_end(),
                           lambda: o.remove(x), lambda: o.remove(x, False), lambda: o.reverse(),
                           lambda: o.rotate_left(rng.randint(0, 4)), lambda: o.rotate_right(rng.randint(0, 4)),
                           lambda: o.__setitem__(0, x), lambda: o.__delitem__(0), lambda: o.clear(), lambda: o.copy(),
                           lambda: o.split(0)])
    if k == "skip":
        return rng.choice([lambda: o.insert(num), lambda: o.insert(num + 1), lambda: o.insert(num + 4), lambda: o.remove(num),
                           lambda: o.__delitem__(0), lambda: o.clear() if r < .3 else o.insert(num)])
    if k in SEARCH:
        p = rng.choice([0, 1, -1, 50, 2.5])
        ins = (lambda: o.insert(num, p)) if k == "treap" else (lambda: o.insert(num))
        return rng.choice([ins, ins, ins, lambda: o.remove(num), lambda: num in o,
                           lambda: o.remove(o.get_min()), lambda: o.clear() if r < .3 else o.get_max()])
    if k in HEAPS:
        return rng.choice([lambda: o.insert(num), lambda: o.insert(num + 1), lambda: o.remove_min(), lambda: o.remove_max(),
                           lambda: o.remove(num), lambda: o.clear() if r < .3 else o.get_max()])
    if k == "stack":
        return rng.choice([lambda: o.push(x), lambda: o.push(x), lambda: o.pop(), lambda: o.peek(), lambda: o.clear()])
    if k == "pq":
        return rng.choice([lambda: o.enqueue(x, num), lambda: o.enqueue(x, num + 1), lambda: o.dequeue(),
                           lambda: o.dequeue(lowest_priority=True), lambda: o.top(), lambda: o.clear() if r < .3 else o.is_full()])
    if k in ("queue", "deque"):
        c = [lambda: o.enqueue(x), lambda: o.enqueue(x), lambda: o.dequeue(), lambda: o.top(), lambda: o.clear()]
        if k == "deque":
            c += [lambda: o.append_left(x), lambda: o.append_right(x), lambda: o.pop_left(), lambda: o.pop_right()]
        return rng.choice(c)
    if k in TRIES:
        w = words(rng, 1)[0]
        return rng.choice([lambda: o.insert(w), lambda: o.insert(w), lambda: o.remove(w[:2]), lambda: o.remove(w),
                           lambda: sorted(o.auto_complete(w[:1])), lambda: o.clear() if r < .3 else o.has_prefix(w)])
    if k == "bin":
        return rng.choice([lambda: o.invert(), lambda: o.invert(), lambda: o.get_leftside_view(), lambda: o.clear()])
    if k == "tree":
        return rng.choice([lambda: o.get_nodes_per_level(), lambda: 0 in o, lambda: o.to_list(),
                           lambda: o.clear() if r < .3 else o.get_height()])
    return rng.choice([lambda: o.to_suffix_array(), lambda: o.get_longest_repeated_substring(), lambda: o.has_substring("ab"),
                       lambda: o.count_pattern_occurrences("a")])


class Player:
    """A structure with its script: call number i of script (kind, n) is
    always the same call."""

    def __init__(self, kind, n):
        self.k, self.n, self.i, self.o = kind, n, 0, None

    def step(self):
        self.i += 1
        rng = random.Random("%s/%d/%d" % (self.k, self.n, self.i))
        if self.k == "treap" and (self.i == 1 or rng.random() < .15):
            self.noise()                    # the seed given decides, not the state of the generator
            self.o = None
            import extra
            r = ans(lambda: self.set(extra.Treap(rng.sample(range(40), 9), seed=rng.choice([0, 1, 5, 123, 2.5]))))
        else:
            random.seed(99 * self.n + self.i)
            if self.i == 1:
                r = ans(lambda: self.set(make(self.k, rng, rng.randint(0, 6))))
            else:
                r = ans(lambda: call_list(self.k, self.o, rng)())
        return r

    COUNT = 0

    def noise(self):
        Player.COUNT += 1
        random.seed(os.getpid() * 1009 + Player.COUNT)

    def set(self, o):
        self.o = o

    def look(self):
        return look(self.k, self.o)


def solo(kind, n, length):
    """The script of (kind, n) run alone in a process that has used nothing of
    the library before."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            p, out = Player(kind, n), []
            for _ in range(length):
                out.append(p.step())
                out.append(p.look())
            os.write(w, json.dumps(out).encode())
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(buf)


SOLO = {}
SCRIPTS, LENGTH = 4, 14


class Apart:
    DEFAULT = {"op": "", "o": "", "kind": "", "n": 0}

    def __init__(self, cfg):
        if not SOLO:
            import extra                    # loaded, but nothing of it used yet
            for k in KINDS:
                for n in range(1, SCRIPTS + 1):
                    SOLO[k, n] = solo(k, n, LENGTH)
        self.p = {}

    def do(self, op):
        if op["op"] == "cast":
            self.p[op["o"]] = Player(op["kind"], op["n"])
            return enc.res("list", l=SOLO[op["kind"], op["n"]])
        return enc.res("text", s=self.p[op["o"]].step())

    def project(self, op):
        return {n: {"s": p.look()} for n, p in self.p.items() if p.o is not None}

    def rand_op(self, rng, g, i, n):
        if i == 0:
            self.pool = rng.sample(KINDS, 2) if rng.random() < .5 else KINDS
            self.m = rng.randint(2, g.get("many", 6))
        if i < self.m:
            return {"op": "cast", "o": "o%d" % i, "kind": rng.choice(self.pool), "n": rng.randint(1, SCRIPTS)}
        left = [k for k, p in self.p.items() if p.i < LENGTH]
        return {"op": "step", "o": rng.choice(left)} if left else None


def build(pid):
    if pid == "I01":
        cfg = """SPECIFICATION Spec
CONSTANTS Kinds = {%s} Size = %d Cursors = %d
VIEW View
INVARIANTS Own EmitState
"""
        ks = ",".join('"%s"' % k for k in KINDS)
        return Check(pid, "ReadTrace",
                     [Mc("ReadMC", cfg % (ks, 3, 2), emit=True, adapter="checks.interplay:Reading", quick_only=True),
                      Mc("ReadMC", cfg % (ks, 4, 3), emit=True, adapter="checks.interplay:Reading", thorough_only=True)],
                     [Rand("checks.interplay:Reading", {"size": 20}, 500, 40),
                      Rand("checks.interplay:Reading", {"size": 80}, 60, 120)],
                     lambda c: True)
    cfg = """SPECIFICATION Spec
CONSTANTS Kinds <- K Steps = %d Same = %s
INVARIANTS Commute EmitState
"""
    return Check(pid, "ApartTrace", [
        Mc("ApartMC", cfg % (4, "TRUE"), emit=True, adapter="checks.interplay:Apart"),
        Mc("ApartMC", cfg % (2, "FALSE"), emit=True, adapter="checks.interplay:Apart", quick_only=True),
        Mc("ApartMC", cfg % (3, "FALSE"), emit=True, adapter="checks.interplay:Apart", thorough_only=True)],
        [Rand("checks.interplay:Apart", {"many": 6}, 300, 60)], lambda c: True)
