"""Calls that fail leave nothing behind (spec: FailWorld), for structures of every kind."""
import warnings

from checks.interplay import CLS, HEAPS, KINDS, LENGTH, LISTS, SCRIPTS, SEARCH, SOLO, STORES, TRIES, Player, solo
from vlib import enc
from vlib.core import Check, Mc, Rand


class Boom(BaseException):
    """The error of the user's own code."""


class Oops(Exception):
    """The same, of the ordinary kind."""


def error(e):
    return "Boom" if isinstance(e, (Boom, Oops)) else enc.exc_name(e)


class Fault:
    """What one failing call does, and how often it got to the point of failing."""

    def __init__(self, k, o, n, held):
        import extra
        self.x, self.k, self.o, self.n, self.held = extra, k, o, 0, held
        self.cls = getattr(extra, CLS[k])
        self.Error, self.at = (Boom, Oops)[n % 2], n // 2

    def probe(self, after=0):
        me = self

        class Probe:
            left = after

            def __eq__(self, other):
                if self.left:
                    self.left -= 1
                    return False
                me.n += 1
                raise me.Error()

            __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__
            __hash__ = None

        return Probe()

    def bad(self):
        me = self

        class Bad:
            def __str__(self):
                me.n += 1
                raise me.Error()
            __repr__ = __str__

        return Bad()

    def source(self, xs):
        for x in xs:
            yield x
        self.n += 1
        raise self.Error()

    def build(self, xs):
        return self.cls.heapify(xs) if self.k in HEAPS else self.cls(xs)

    def put(self, x):
        o = self.o
        if self.k in LISTS:
            return o.add_end(x)
        if self.k in STORES:
            return o.push(x) if self.k == "stack" else o.enqueue(x)
        return self.cls(x) if self.k == "suffix" else o.insert(x)

    def run(self, c):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                getattr(self, "c_" + c)()
        except (Boom, Exception) as e:
            return enc.res("out", s=error(e), n=self.n)
        return enc.res("out", n=self.n)

    # the user's code raises
    def c_source(self):
        self.build(self.source([]))

    def c_late(self):
        self.build(self.source([4, 7, -1, 5]))

    def c_eqin(self):
        self.probe() in self.o

    def c_eqcount(self):
        self.o.count(self.probe())

    def c_eqremove(self):
        self.o.remove(self.probe())

    def c_eqremove3(self):
        self.o.remove(self.probe(2))

    def c_eqfirst(self):
        self.o.remove(self.probe(1), all=False)

    def c_eqlist(self):
        self.o == self.cls([self.probe(1) for _ in range(len(self.o))])

    def c_ltlist(self):
        self.o < self.cls([self.probe() for _ in range(2)])

    def c_print(self):
        o = self.o
        if self.k in ("tree", "bin"):
            r = o._root
            if r is None:
                return
            for d in range(self.at % 3):            # the root, or one below
                below = [x for x in r.get_children() if x is not None]
                r = below[(self.at + d) % len(below)] if below else r
            n = type(r)(self.bad())
            n.swap(r, n)
            try:
                repr(o)
            finally:
                n.swap(r, n)
            return
        if self.k in STORES and (o.is_full() or self.k in ("queue", "pq")):
            o = self.cls()                  # has nothing to do with this one
            add = o.push if self.k == "stack" else o.enqueue
            add(1)
            add(self.bad())
            repr(o)
            return
        (o.push if self.k == "stack" else o.append_left if self.k == "deque" else o.add_front)(self.bad())
        try:
            repr(o)
        finally:
            (o.pop if self.k == "stack" else o.pop_left if self.k == "deque" else o.remove_front)()

    def c_kids(self):
        r = self.o._root
        if r is not None:
            r.set_children(self.source([self.x.TreeNode(1), self.x.TreeNode(2)]))

    # refused
    def c_none(self):
        self.n = 1
        self.put(None)

    def c_noneat(self):
        self.n = 1
        self.o.insert(0, None)

    def c_extra(self):
        self.n = 1
        self.put(self.x.LinkedList([1]))

    def c_wrong(self):
        self.n = 1
        self.put(5 if self.k in TRIES or self.k == "suffix" else "5")

    def c_half(self):
        self.n = 1
        if self.k == "bin":
            return self.cls.parse(5)
        self.build([3, 1, None, 2])

    def c_noniter(self):
        self.n = 1
        self.build(5)

    def c_index(self):
        self.n = 1
        self.o.get_lowest_common_ancestor("0", 1) if self.k == "suffix" else self.o["0"]

    def c_far(self):
        self.n = 1
        self.o.get_lowest_common_ancestor(0, 999) if self.k == "suffix" else self.o[999]

    def c_put(self):
        self.n = 1
        self.o[0.0] = 1

    def c_cut(self):
        self.n = 1
        del self.o["0"]

    def c_flag(self):
        self.n = 1
        self.o.remove(1, all="yes")

    def c_back(self):
        self.n = 1
        self.o.rotate_left(-1)

    def c_turn(self):
        self.n = 1
        self.o.rotate_right(1, inplace=0)

    def c_peer(self):
        self.n = 1
        self.o.extend([1, 2])

    def c_than(self):
        self.n = 1
        self.o < [1]

    def c_method(self):
        self.n = 1
        self.o.traverse("sideways")

    def c_named(self):
        self.n = 1
        self.o.traverse(5)

    def c_priority(self):
        self.n = 1
        (self.o.enqueue if self.k == "pq" else self.o.insert)(41, "high")

    def c_capacity(self):
        self.n = 1
        self.cls(-1)

    def c_text(self):
        self.n = 1
        self.cls("5")

    def c_child(self):
        if self.o._root is not None:
            self.n = 1
            (self.o._root.set_left if self.k == "bin" else self.o._root.set_child)(5)

    def c_swap(self):
        if self.o._root is not None:
            self.n = 1
            type(self.o._root).swap(self.o._root, 5)

    def c_kidbad(self):
        if self.o._root is not None:
            self.n = 1
            self.o._root.set_children([self.x.TreeNode(1), 5])

    def c_path(self):
        self.n = 1
        self.cls.from_path("/nothing/is/here")

    def c_blank(self):
        self.n = 1
        self.o.insert("  ")

    def c_ask(self):
        self.n = 1
        self.o.auto_complete(5)

    def c_empty(self):
        self.n = 1
        self.cls("")

    # no failure at all
    def c_leave(self):
        if hasattr(self.o, "__iter__"):
            it = iter(self.o)
            next(it, None)
            if hasattr(it, "close"):
                it.close()

    def c_open(self):
        if hasattr(self.o, "__iter__"):
            it = iter(self.o)
            next(it, None)
            self.held.append(it)


class Failing:
    DEFAULT = {"op": "", "o": "", "kind": "", "n": 0, "c": ""}

    def __init__(self, cfg):
        if not SOLO:
            import extra                    # loaded, but nothing of it used yet
            for k in KINDS:
                for n in range(1, SCRIPTS + 1):
                    SOLO[k, n] = solo(k, n, LENGTH)
        self.p, self.held, self.count = {}, [], 0

    def do(self, op):
        if op["op"] == "cast":
            self.p[op["o"]] = Player(op["kind"], op["n"])
            return enc.res("list", l=SOLO[op["kind"], op["n"]])
        p = self.p[op["o"]]
        if op["op"] == "step":
            return enc.res("text", s=p.step())
        self.count += 1
        return Fault(p.k, p.o, self.count, self.held).run(op["c"])

    def project(self, op):
        return {n: {"s": p.look()} for n, p in self.p.items() if p.o is not None}

    def rand_op(self, rng, g, i, n):
        if i == 0:
            self.m = rng.choice([1, 1, 2, 3])
        if i < self.m:
            return {"op": "cast", "o": "o%d" % i, "kind": rng.choice(KINDS), "n": rng.randint(1, SCRIPTS)}
        left = [k for k, p in self.p.items() if p.i < LENGTH]
        if not left:
            return None
        o = rng.choice(left)
        p = self.p[o]
        if p.o is None or rng.random() < .35:
            return {"op": "step", "o": o}
        return {"op": "fail", "o": o, "c": rng.choice(fails(p.k))}


LISTED = {}


def fails(k):
    """The failing calls that FailWorld has for structures of that kind."""
    if not LISTED:
        lists = ["source", "late", "eqin", "eqcount", "eqremove", "eqremove3", "eqfirst", "eqlist", "ltlist", "print", "none", "noneat",
                 "extra", "half", "noniter", "index", "put", "cut", "flag", "back", "turn", "peer", "than"]
        nums = ["source", "late", "none", "wrong", "half", "noniter"]
        for x in KINDS:
            LISTED[x] = (lists if x in LISTS else nums + ["index", "far", "cut"] if x == "skip"
                         else nums + ["method", "named"] + ["priority"] * (x == "treap") if x in SEARCH else nums if x in HEAPS
                         else ["none", "extra", "capacity", "text"] + ["priority"] * (x == "pq") + ["print"]  if x in STORES
                         else ["eqin", "print", "kids", "child", "swap", "kidbad", "path"] if x == "tree"
                         else ["eqin", "print", "child", "swap", "half", "method", "named"] if x == "bin"
                         else ["none", "wrong", "blank", "ask"] if x in TRIES else ["none", "wrong", "empty", "far", "index"])
            LISTED[x] = LISTED[x] + ([] if x in STORES else ["leave", "open"])
    return LISTED[k]


AD = "checks.failing:Failing"


def mc(steps, most, scripts, **kw):
    return Mc("FailMC", """SPECIFICATION Spec
CONSTANTS Steps = %d Most = %d Scripts = %d
INVARIANTS Erased Named EmitState
""" % (steps, most, scripts), emit=True, adapter=AD, **kw)


def build(pid):
    return Check(pid, "FailTrace",
                 [mc(3, 2, 1, quick_only=True), mc(8, 1, 4, quick_only=True),
                  mc(5, 2, 2, thorough_only=True), mc(14, 1, 4, thorough_only=True)],
                 [Rand(AD, {}, 400, 60)], lambda c: True)
