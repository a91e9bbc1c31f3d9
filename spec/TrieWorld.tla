----------------------------- MODULE TrieWorld ------------------------------
(* Tries and radix tries. A trie is seen as                                  *)
(*   w   the set of its words (sequences of code points)                     *)
(*   n   the set of its nodes, each given by the text on the way to it       *)
(* A trie has a node for every prefix of every word. A radix trie only needs *)
(* the words and the points where they part; it keeps the nodes that had to  *)
(* be made as long as they lead to a word.                                   *)
EXTENDS Items, FiniteSets, TLC
CONSTANT Kind           \* "trie" or "radix"

Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Heads(s) == { SubSeq(s, 1, i) : i \in 1..Len(s) }
RECURSIVE Lcp(_, _)
Lcp(a, b) == IF a = <<>> \/ b = <<>> \/ Head(a) # Head(b) THEN <<>>
             ELSE <<Head(a)>> \o Lcp(Tail(a), Tail(b))
Longest(S) == CHOOSE s \in S : \A u \in S : Len(u) <= Len(s)

Empty == [w |-> {}, n |-> {}]
Ins(t, s) ==
  [w |-> t.w \cup {s},
   n |-> IF Kind = "trie" THEN t.n \cup Heads(s)
         ELSE LET part == Longest({<<>>} \cup { Lcp(s, p) : p \in t.n })
              IN t.n \cup ({part, s} \ {<<>>})]
Del(t, s) == IF s \notin t.w THEN t
             ELSE LET w == t.w \ {s} IN [w |-> w, n |-> { p \in t.n : \E v \in w : Prefix(p, v) }]

(* the rules of the two kinds *)
Up(t, p) == Longest({<<>>} \cup { q \in t.n : q # p /\ Prefix(q, p) })
Below(t, p) == { q \in t.n : q # p /\ Prefix(p, q) /\ Up(t, q) = p }
Leafs(t) == { p \in t.n : Below(t, p) = {} }
Rules(t) == /\ t.w \subseteq t.n /\ <<>> \notin t.n
            /\ Leafs(t) \subseteq t.w
            /\ Kind = "trie" => t.n = UNION { Heads(s) : s \in t.w }
            /\ Kind = "radix" => \A p, q \in t.n : Lcp(p, q) \in t.n \cup {<<>>}
(* as few nodes as possible: no word ends, and no two part, elsewhere *)
Tight(t) == \A p \in t.n : p \in t.w \/ Cardinality(Below(t, p)) >= 2

(* the observed structure: [c label, w word?, k : Seq] below the root *)
RECURSIVE Flat(_), Zip(_, _), PathsOf(_, _), WordsOf(_, _), NLevels(_), NDepth(_), NLeaves(_), NCount(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Zip(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE <<a[1] \o b[1]>> \o Zip(Tail(a), Tail(b))
ZipAll(ss) == LET RECURSIVE Z(_) Z(i) == IF i > Len(ss) THEN <<>> ELSE Zip(ss[i], Z(i + 1)) IN Z(1)
Sum(s) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE s[i] + S(i - 1) IN S(Len(s))
Top(s) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE Max2(s[i], S(i - 1)) IN S(Len(s))
PathsOf(k, up) == UNION { {up \o k[i].c} \cup PathsOf(k[i].k, up \o k[i].c) : i \in DOMAIN k }
WordsOf(k, up) == UNION { (IF k[i].w THEN {up \o k[i].c} ELSE {}) \cup WordsOf(k[i].k, up \o k[i].c) : i \in DOMAIN k }
Str(v) == [t |-> "s", v |-> v, p |-> "str"]
NLevels(k) == IF k = <<>> THEN <<>> ELSE << [i \in DOMAIN k |-> Str(k[i].c)] >> \o ZipAll([i \in DOMAIN k |-> NLevels(k[i].k)])
NDepth(k) == Top([i \in DOMAIN k |-> 1 + NDepth(k[i].k)])
NLeaves(k) == Sum([i \in DOMAIN k |-> IF k[i].k = <<>> THEN 1 ELSE NLeaves(k[i].k)])
NCount(k) == Sum([i \in DOMAIN k |-> 1 + NCount(k[i].k)])
(* labels are not empty and siblings part at their first character *)
RECURSIVE Sound(_)
Sound(k) == /\ \A i \in DOMAIN k : k[i].c # <<>> /\ Sound(k[i].k) /\ (Kind = "trie" => Len(k[i].c) = 1)
            /\ \A i, j \in DOMAIN k : i # j => k[i].c[1] # k[j].c[1]

RECURSIVE Ended(_)
Ended(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o <<NoItem>> \o Ended(Tail(ss))
RLists(ss) == [tag |-> "lists", s |-> "", n |-> Len(ss), l |-> Ended(ss)]

Space(c) == c \in {32, 9, 10, 11, 12, 13, 28, 29, 30, 31, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202
Blanks(v) == \A i \in DOMAIN v : Space(v[i])
InsErr(x) == CASE NoValue(x) -> BadItemErr(x)
               [] ~IsText(x) -> "TypeError"
               [] Blanks(x.v) -> "ValueError"
               [] OTHER -> ""
(* what a call on the trie t, seen as k, must do: [t, res, warn]             *)
(* res.tag = "bag": the items in any order                                   *)
Want(t, r) == [t |-> t, res |-> r, warn |-> ""]
RBag(S) == [tag |-> "bag", s |-> "", n |-> Cardinality(S), l |-> {Str(v) : v \in S}]
Judge(t, k, op) ==
  CASE op.op \in {"new", "clear"} -> Want(Empty, RNone)
    [] op.op = "insert" -> IF InsErr(op.x) # "" THEN Want(t, RExc(InsErr(op.x))) ELSE Want(Ins(t, op.x.v), RNone)
    [] op.op = "remove" -> IF ~IsText(op.x) \/ (op.x.v # <<>> /\ op.x.v \notin t.w)
                           THEN [Want(t, RNone) EXCEPT !.warn = "UserWarning"]
                           ELSE IF op.x.v = <<>> THEN Want(t, RNone) ELSE Want(Del(t, op.x.v), RNone)
    [] op.op = "contains" -> Want(t, RBool(IsText(op.x) /\ op.x.v \in t.w))
    [] op.op = "prefix" -> Want(t, RBool(IsText(op.x) /\ (op.x.v = <<>> \/ \E s \in t.w : Prefix(op.x.v, s))))
    [] op.op = "complete" -> IF NoValue(op.x) THEN Want(t, RExc(BadItemErr(op.x)))
                             ELSE IF ~IsText(op.x) THEN Want(t, RExc("TypeError"))
                             ELSE Want(t, RBag({ s \in t.w : Prefix(op.x.v, s) }))
    [] op.op = "len" -> Want(t, RInt(Cardinality(t.n) + 1))
    [] op.op = "is_empty" -> Want(t, RBool(t.n = {}))
    [] op.op = "height" -> Want(t, RInt(NDepth(k)))
    [] op.op = "depth" -> Want(t, RInt(0))
    [] op.op = "leaves" -> Want(t, RInt(NLeaves(k)))
    [] op.op \in {"iter", "to_list"} -> Want(t, RList(Flat(NLevels(k))))
    [] op.op = "per_level" -> Want(t, RLists(NLevels(k)))
Rejected(r) == r.tag = "exc"
Bag(res, want) == /\ res.tag = "list" /\ Len(res.l) = want.n
                  /\ { res.l[i] : i \in DOMAIN res.l } = want.l
Agrees(res, want) == IF want.tag = "bag" THEN Bag(res, want) ELSE res = want
Asks == {"contains", "prefix", "complete", "len", "is_empty", "height", "depth", "leaves", "iter", "to_list", "per_level"}
=============================================================================
