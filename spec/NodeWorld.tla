----------------------------- MODULE NodeWorld ------------------------------
(* Nodes that are linked by hand, and the trees they form.                   *)
(*   w : name -> [d, k]   a node: its item, and the names of its children    *)
(*       ("" for a missing left or right child of a binary node);            *)
(*       a tree: d = NoItem, k = <<root>> or <<>>                            *)
EXTENDS BinTree, TLC
CONSTANT Kind           \* "tree" or "bin"
Trees == {"A", "B"}
NoTree == [d |-> NoItem, k |-> <<>>]

(* the tree below a node, as a value; missing children are left out *)
RECURSIVE Unf(_, _), Bin(_, _)
Kids(g, n) == SelectSeq(g[n].k, LAMBDA c : c # "")
Unf(g, n) == LET ks == Kids(g, n) IN [d |-> g[n].d, k |-> [i \in DOMAIN ks |-> Unf(g, ks[i])]]
Bin(g, n) == IF n = "" THEN Nil ELSE Node(g[n].d, 0, Bin(g, g[n].k[1]), Bin(g, g[n].k[2]))
RootOf(g, t) == IF g[t].k = <<>> THEN "" ELSE g[t].k[1]

(* questions about a non-empty general tree *)
RECURSIVE GSize(_), GHeight(_), GLeaves(_), GLevels(_), GPre(_)
Sum(s) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE s[i] + S(i - 1) IN S(Len(s))
Top(s) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE Max2(s[i], S(i - 1)) IN S(Len(s))
GSize(u) == 1 + Sum([i \in DOMAIN u.k |-> GSize(u.k[i])])
GHeight(u) == Top([i \in DOMAIN u.k |-> 1 + GHeight(u.k[i])])
GLeaves(u) == IF u.k = <<>> THEN 1 ELSE Sum([i \in DOMAIN u.k |-> GLeaves(u.k[i])])
ZipAll(ss) == LET RECURSIVE Z(_) Z(i) == IF i > Len(ss) THEN <<>> ELSE Zip(ss[i], Z(i + 1)) IN Z(1)
GLevels(u) == << <<u.d>> >> \o ZipAll([i \in DOMAIN u.k |-> GLevels(u.k[i])])
GPre(u) == <<u.d>> \o Flat([i \in DOMAIN u.k |-> GPre(u.k[i])])
GHas(u, x) == LET p == GPre(u) IN \E i \in DOMAIN p : Eq(p[i], x)

GAsk(g, op) ==
  LET n == RootOf(g, op.o)
      e == n = ""
      u == Unf(g, n)
  IN CASE op.op = "len" -> RInt(IF e THEN 0 ELSE GSize(u))
       [] op.op = "is_empty" -> RBool(e)
       [] op.op = "height" -> RInt(IF e THEN 0 ELSE GHeight(u))
       [] op.op = "depth" -> RInt(0)
       [] op.op = "leaves" -> RInt(IF e THEN 0 ELSE GLeaves(u))
       [] op.op \in {"iter", "to_list"} -> RList(IF e THEN <<>> ELSE Flat(GLevels(u)))
       [] op.op = "per_level" -> RLists(IF e THEN <<>> ELSE GLevels(u))
       [] op.op = "contains" -> RBool(~e /\ GHas(u, op.x))
GOps == {"len", "is_empty", "height", "depth", "leaves", "iter", "to_list", "per_level", "contains"}
TreeOps == IF Kind = "bin" THEN GOps \cup ShapeOps ELSE GOps

(* a folder [n name, d is a directory, k entries] as a tree: entries by name *)
RECURSIVE Folder(_)
Folder(f) == LET ks == SortSeq(f.k, LAMBDA a, b : LexLt(a.n.v, b.n.v))
             IN [d |-> Stored(f.n), k |-> IF f.d THEN [i \in DOMAIN ks |-> Folder(ks[i])] ELSE <<>>]

(* nested lists [f "v" a value, "l" a list or "t" a tuple; x; k] as binary trees *)
Bad(s) == [ok |-> FALSE, e |-> s, t |-> Nil]
RECURSIVE Parse(_)
Parse(n) ==
  IF n.f = "v" THEN (IF NoValue(n.x) THEN Bad(BadItemErr(n.x)) ELSE [ok |-> TRUE, e |-> "", t |-> Node(Stored(n.x), 0, Nil, Nil)])
  ELSE IF Len(n.k) \notin 1..3 THEN Bad("ValueError")
  ELSE LET p == Parse(n.k[1])
           a == IF Len(n.k) > 1 THEN Parse(n.k[2]) ELSE [ok |-> TRUE, e |-> "", t |-> Nil]
           b == IF Len(n.k) > 2 THEN Parse(n.k[3]) ELSE [ok |-> TRUE, e |-> "", t |-> Nil]
       IN IF ~p.ok THEN p ELSE IF ~a.ok THEN a ELSE IF ~b.ok THEN b
          ELSE [ok |-> TRUE, e |-> "", t |-> Node(D(p.t), 0, a.t, b.t)]

(* what a call must do: [s world after it, res, warn, m how t is to be read: *)
(* "" the world s exactly, "g"/"b" the tree op.o has the value t]            *)
Want(s, r) == [s |-> s, res |-> r, warn |-> "", m |-> "", t |-> Nil]
Fresh == IF Kind = "bin" THEN <<"", "">> ELSE <<>>
RECURSIVE Below(_, _)
Below(g, n) == IF n = "" THEN {} ELSE {n} \cup UNION { Below(g, g[n].k[i]) : i \in DOMAIN g[n].k }
Judge(g, op) ==
  CASE op.op = "node" -> IF NoValue(op.x) THEN Want(g, RExc(BadItemErr(op.x)))
                         ELSE Want((op.o :> [d |-> Stored(op.x), k |-> Fresh]) @@ g, RNone)
    [] op.op = "child" -> IF op.a = "" THEN Want(g, RExc("TypeError"))
                          ELSE Want([g EXCEPT ![op.o].k = Append(@, op.a)], RNone)
    [] op.op = "children" -> IF Kind = "bin" THEN Want(g, RExc("NotImplementedError"))
                             ELSE IF op.f \in {"noniter", "bad"} THEN Want(g, RExc("TypeError"))
                             ELSE Want([g EXCEPT ![op.o].k = op.as], RNone)
    [] op.op \in {"left", "right"} ->
         IF op.a = "" THEN Want(g, RExc("TypeError"))
         ELSE Want([g EXCEPT ![op.o].k[IF op.op = "left" THEN 1 ELSE 2] = op.a], RNone)
    [] op.op = "swap" -> IF op.a = "" THEN Want(g, RExc("TypeError"))
                         ELSE Want([g EXCEPT ![op.o].d = g[op.a].d, ![op.a].d = g[op.o].d], RNone)
    [] op.op = "data" -> Want(g, RVal(g[op.o].d))
    [] op.op = "kids" -> Want(g, LET ks == Kids(g, op.o) IN RList([i \in DOMAIN ks |-> g[ks[i]].d]))
    [] op.op = "is_leaf" -> Want(g, RBool(Kids(g, op.o) = <<>>))
    [] op.op = "one_child" -> Want(g, RBool(Len(Kids(g, op.o)) = 1))
    [] op.op = "tree" -> Want((op.o :> NoTree) @@ g, RNone)
    [] op.op = "root" -> Want([g EXCEPT ![op.o].k = <<op.a>>], RNone)
    [] op.op = "clear" -> Want([g EXCEPT ![op.o].k = <<>>], RNone)
    [] op.op = "invert" -> LET I == Below(g, RootOf(g, op.o))
                           IN Want([n \in DOMAIN g |-> IF n \in I THEN [g[n] EXCEPT !.k = <<@[2], @[1]>>] ELSE g[n]], RNone)
    [] op.op = "path" -> IF op.f = "notstr" THEN Want(g, RExc("TypeError"))
                         ELSE IF op.f = "missing" THEN Want(g, RExc("ValueError"))
                         ELSE [Want(g, RNone) EXCEPT !.m = "g", !.t = Folder(op.dir)]
    [] op.op = "parse" -> IF op.n.f = "v" THEN Want(g, RExc("TypeError"))
                          ELSE LET p == Parse(op.n) IN
                               IF ~p.ok THEN Want(g, RExc(p.e))
                               ELSE [Want(g, RNone) EXCEPT !.m = "b", !.t = p.t]
    [] op.op \in GOps -> Want(g, GAsk(g, op))
    [] op.op \in ShapeOps \ GOps -> LET t == Bin(g, RootOf(g, op.o))
                                    IN [Want(g, Ask(t, op)) EXCEPT !.warn = AskWarn(t, op)]
Rejected(r) == r.tag = "exc"
=============================================================================
