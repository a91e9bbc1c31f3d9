"""Trie and RadixTrie (spec: TrieWorld)."""
from itertools import islice

from checks.search import lists
from vlib import enc
from vlib.core import Check, Mc, Rand

CAP = 3000


def ends_word(o, node, path):
    """Whether a word ends at a node."""
    return bool(node._is_word) if hasattr(node, "_is_word") else path in o


WIDE = "".join(map(chr, [*range(33, 127), *range(0x3b1, 0x3c9), *range(0x4e00, 0x4e20)]))


class Tries:
    DEFAULT = {"op": "", "o": "a", "x": enc.item(None)}
    ASKS = {"contains", "prefix", "complete", "len", "is_empty", "height", "depth", "leaves", "iter", "to_list", "per_level"}

    def __init__(self, cfg):
        import extra
        self.cls = extra.Trie if cfg["kind"] == "trie" else extra.RadixTrie
        self.o = {}

    def do(self, op):
        k = op["op"]
        if k == "new":
            self.o[op["o"]] = self.cls()
            return enc.NONE
        o = self.o[op["o"]]
        x = enc.unitem(op["x"])
        if k in ("insert", "remove"):
            return enc.r_none(getattr(o, k)(x))
        if k == "clear":
            return enc.r_none(o.clear())
        if k == "contains":
            return enc.r_bool(x in o)
        if k == "prefix":
            return enc.r_bool(o.has_prefix(x))
        if k == "complete":
            return enc.r_items(o.auto_complete() if x == "" else o.auto_complete(x))
        if k == "len":
            return enc.r_int(len(o))
        if k == "is_empty":
            return enc.r_bool(o.is_empty())
        if k == "iter":
            return enc.r_items(list(islice(iter(o), CAP)))
        if k == "to_list":
            return enc.r_items(o.to_list())
        if k == "per_level":
            return lists(o.get_nodes_per_level())
        return enc.r_int({"height": o.get_height, "depth": o.get_depth, "leaves": o.count_leaf_nodes}[k]())

    def project(self, op):
        return {n: self.view(o) for n, o in self.o.items()}

    def view(self, o):
        self.ok, self.budget = o._root.get_parent() is None, CAP
        return {"k": self.kids(o, o._root, ""), "len": len(o), "ok": self.ok}

    def kids(self, o, n, path):
        out = []
        keys = list(n.get_characters())
        for ch, c in zip(keys, n.get_children()):
            self.budget -= 1
            if self.budget < 0:
                raise ValueError("too many nodes")
            d = c.get_data()
            self.ok = self.ok and d[:1] == ch and c.get_parent() is n
            out.append({"c": [ord(x) for x in d], "w": ends_word(o, c, path + d), "k": self.kids(o, c, path + d)})
        return out

    def words(self, o):
        out, todo = [], [(o._root, "")]
        while todo:
            n, p = todo.pop()
            for c in n.get_children():
                q = p + c.get_data()
                if ends_word(o, c, q):
                    out.append(q)
                todo.append((c, q))
        return sorted(out)

    def rand_op(self, rng, g, i, n):
        if i == 0:
            self.abc = rng.choice(["ab", "ab", "abc", "ab}{", "aé∂", "a b\n", "abcdefgh", "-$ ⟶0", "aAb", "a1 0", "ßsSẞ", "e\u0301é", "😀a\u200d",
                                   "İiıI", "\x00a\x7f", "ab", WIDE] if not g.get("wide") else [WIDE, WIDE[:40]])
            self.maxlen = rng.choice([3, 5, 9, 3, 5, 9, 30, 80])
            self.phase = rng.choice([.35, .45, .55])
            return {"op": "new", "o": "a"}
        if rng.random() < .01:
            return {"op": "new", "o": rng.choice("ab")}
        name = rng.choice(sorted(self.o))
        ws = self.words(self.o[name])
        r = rng.random()
        if rng.random() < .05:
            self.phase = rng.choice([.2, .45, .55])
        if r < self.phase:
            return {"op": "insert", "o": name, "x": enc.item(self.text(rng, ws))}
        if r < .63:
            w = rng.choice(ws) if ws and rng.random() < .8 else self.text(rng, ws)
            return {"op": "remove", "o": name, "x": enc.item(w)}
        if r < .83:
            k = rng.choice(["contains", "prefix", "complete", "complete", "prefix"])
            w = self.text(rng, ws) if rng.random() < .5 else (rng.choice(ws) if ws else "")
            w = w[:rng.randint(0, len(w))] if rng.random() < .5 else w
            return {"op": k, "o": name, "x": enc.item(w)}
        if r < .95:
            return {"op": rng.choice(["len", "is_empty", "height", "depth", "leaves", "iter", "to_list", "per_level"]), "o": name}
        if r < .955:
            return {"op": "clear", "o": name}
        bad = rng.choice([enc.item(None), dict(enc.item(None), t="extra", p="Node"), enc.item(5), enc.item(["a"]),
                          enc.item(""), enc.item("  ")])
        return {"op": rng.choice(["insert", "insert", "remove", "contains", "prefix", "complete"]), "o": name, "x": bad}

    def text(self, rng, ws):
        c = rng.random()
        if ws and c < .7:
            w = rng.choice(ws)
            if c < .25 and len(w) < 100:
                return w + "".join(rng.choice(self.abc) for _ in range(rng.randint(1, 3)))
            if c < .45 and len(w) > 1:
                return w[:rng.randint(1, len(w) - 1)]
            if c < .65:
                k = rng.randrange(len(w))
                return w[:k] + rng.choice(self.abc) + w[k + 1:]
            return w
        if c > .97:
            return rng.choice(["ROOT", "ROO", "ROOTS", "RO", " a", "a ", "True", "None", "--", "A", "a"])
        return "".join(rng.choice(self.abc) for _ in range(rng.randint(1, self.maxlen)))


AD = "checks.tries:Tries"


def mc(kind, n, words, letters, **kw):
    return Mc("TrieMC", """SPECIFICATION Spec
CONSTANTS Kind = "%s" MaxLen = %d MaxWords = %d Letters = %d
VIEW View
INVARIANTS Inv EmitState
""" % (kind, n, words, letters), emit=True, adapter=AD, acfg={"kind": kind}, **kw)


def build(pid):
    kind = {"W01": "trie", "W02": "radix"}[pid]
    cfg = {"kind": kind}
    return Check(pid, "TrieTrace",
                 [mc(kind, 3, 3 if kind == "trie" else 2, 2, quick_only=True), mc(kind, 2, 3, 3, quick_only=True),
                  mc(kind, 3, 4, 2, thorough_only=True), mc(kind, 2, 4, 3, thorough_only=True)],
                 [Rand(AD, {}, 300, 60, cfg), Rand(AD, {}, 60, 200, cfg),
                  Rand(AD, {"wide": True}, 8, 200, cfg), Rand(AD, {}, 4, 600, cfg)],
                 lambda c: True, trace_cfg='CONSTANT Kind = "%s"\n' % kind)
