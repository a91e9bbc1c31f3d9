------------------------------ MODULE BinTree ------------------------------
(* Binary trees as values, and the questions one can ask about their shape.  *)
(*   a tree is <<>> (no node) or << [d, m, l, r] >>                          *)
(*     d item, m a mark (colour, priority, height or 0), l and r trees       *)
EXTENDS Items

Nil == <<>>
Node(d, m, a, b) == << [d |-> d, m |-> m, l |-> a, r |-> b] >>
D(t) == t[1].d
M(t) == t[1].m
L(t) == t[1].l
R(t) == t[1].r
With(t, a, b) == Node(D(t), M(t), a, b)

(* A tree listed in pre-order, each node with the children it has: k = 0 no  *)
(* child, 1 a left one, 2 a right one, 3 both.                               *)
RECURSIVE RegrowOn(_, _, _)
RegrowOn(f, i, done) ==      \* done: the finished trees that are not yet anyone's child
  IF i = 0 THEN (IF done = <<>> THEN Nil ELSE done[1])
  ELSE LET n == f[i]
           a == IF n.k \in {1, 3} THEN done[1] ELSE Nil
           b == IF n.k = 2 THEN done[1] ELSE IF n.k = 3 THEN done[2] ELSE Nil
           rest == SubSeq(done, (CASE n.k = 0 -> 1 [] n.k = 3 -> 3 [] OTHER -> 2), Len(done))
       IN RegrowOn(f, i - 1, << Node(n.d, n.m, a, b) >> \o rest)
Regrow(f) == RegrowOn(f, Len(f), <<>>)

(* numbers, with both infinities *)
NumLt(a, b) == LexLt(a.v, b.v)
Number(x) == x.t = "n" /\ x.p # "bool"

RECURSIVE Size(_), Levels(_), Leaves(_), In(_), Pre(_), Post(_), Mirror(_), Strict(_), Zip(_, _)
Size(t) == IF t = Nil THEN 0 ELSE 1 + Size(L(t)) + Size(R(t))
(* number of levels; the height counts edges, so it is one less *)
Levels(t) == IF t = Nil THEN 0 ELSE 1 + Max2(Levels(L(t)), Levels(R(t)))
Height(t) == Max2(0, Levels(t) - 1)
Leaf(t) == L(t) = Nil /\ R(t) = Nil
Leaves(t) == IF t = Nil THEN 0 ELSE IF Leaf(t) THEN 1 ELSE Leaves(L(t)) + Leaves(R(t))
In(t) == IF t = Nil THEN <<>> ELSE In(L(t)) \o <<D(t)>> \o In(R(t))
Pre(t) == IF t = Nil THEN <<>> ELSE <<D(t)>> \o Pre(L(t)) \o Pre(R(t))
Post(t) == IF t = Nil THEN <<>> ELSE Post(L(t)) \o Post(R(t)) \o <<D(t)>>
Mirror(t) == IF t = Nil THEN Nil ELSE With(t, Mirror(R(t)), Mirror(L(t)))
(* every node that is not a leaf has two children *)
Strict(t) == t = Nil \/ Leaf(t) \/ (L(t) # Nil /\ R(t) # Nil /\ Strict(L(t)) /\ Strict(R(t)))

Zip(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
             ELSE <<a[1] \o b[1]>> \o Zip(Tail(a), Tail(b))
RECURSIVE PerLevel(_)
PerLevel(t) == IF t = Nil THEN <<>> ELSE << <<D(t)>> >> \o Zip(PerLevel(L(t)), PerLevel(R(t)))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Bfs(t) == Flat(PerLevel(t))
LeftView(t) == LET p == PerLevel(t) IN [i \in DOMAIN p |-> p[i][1]]
RightView(t) == LET p == PerLevel(t) IN [i \in DOMAIN p |-> p[i][Len(p[i])]]
(* all levels completely filled *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE Perfect(_)
Perfect(t) == t = Nil \/ (Levels(L(t)) = Levels(R(t)) /\ Perfect(L(t)) /\ Perfect(R(t)))
(* the library's notion: the two subtrees of the root differ by one level at most *)
Diff(t) == Levels(L(t)) - Levels(R(t))
Balanced(t) == t = Nil \/ Diff(t) \in -1..1
RECURSIVE FullyBalanced(_)
FullyBalanced(t) == t = Nil \/ (Diff(t) \in -1..1 /\ FullyBalanced(L(t)) /\ FullyBalanced(R(t)))

(* a list of lists as one flat list: NoItem ends each of them *)
RECURSIVE Ended(_)
Ended(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o <<NoItem>> \o Ended(Tail(ss))
RLists(ss) == [tag |-> "lists", s |-> "", n |-> Len(ss), l |-> Ended(ss)]

(* the way to a value in a search tree, and the relatives found there:       *)
(* <<parent, grandparent, uncle, sibling>>                                   *)
RECURSIVE Kin(_, _, _, _)
Val(t) == IF t = Nil THEN NoItem ELSE D(t)
Kin(t, x, up, upup) ==       \* up, upup: the trees of the parent and grandparent
  IF Eq(D(t), x)
  THEN << Val(up), Val(upup),
          IF up = Nil \/ upup = Nil THEN NoItem
          ELSE IF NumLt(D(up), D(upup)) THEN Val(R(upup)) ELSE Val(L(upup)),
          IF up = Nil THEN NoItem
          ELSE IF NumLt(D(t), D(up)) THEN Val(R(up)) ELSE Val(L(up)) >>
  ELSE IF NumLt(x, D(t)) THEN Kin(L(t), x, t, up) ELSE Kin(R(t), x, t, up)

(* questions about the shape that every kind of binary tree answers alike *)
ShapeOps == {"height", "depth", "leaves", "iter", "to_list", "per_level", "pre", "dfs", "post", "in",
             "bfs", "traverse", "balanced", "perfect", "strict", "leftview", "rightview"}
Methods == [inorder |-> 1, postorder |-> 2, preorder |-> 3]
Ask(t, op) ==
  CASE op.op = "height" -> RInt(Height(t))
    [] op.op = "depth" -> RInt(0)
    [] op.op = "leaves" -> RInt(Leaves(t))
    [] op.op \in {"iter", "to_list", "bfs"} -> RList(Bfs(t))
    [] op.op = "per_level" -> RLists(PerLevel(t))
    [] op.op \in {"pre", "dfs"} -> RList(Pre(t))
    [] op.op = "post" -> RList(Post(t))
    [] op.op = "in" -> RList(In(t))
    [] op.op = "traverse" ->
         CASE op.f = "notstr" -> RExc("TypeError")
           [] op.f \in {"", "inorder", "InOrder"} -> RList(In(t))
           [] op.f \in {"postorder", "POSTORDER"} -> RList(Post(t))
           [] op.f \in {"preorder", "depth-first", "Depth-First"} -> RList(Pre(t))
           [] op.f = "breadth-first" -> RList(Bfs(t))
           [] OTHER -> RExc("ValueError")
    [] op.op = "balanced" -> RBool(Balanced(t))
    [] op.op = "perfect" -> RBool(Perfect(t))
    [] op.op = "strict" -> RBool(Strict(t))
    [] op.op = "leftview" -> RList(LeftView(t))
    [] op.op = "rightview" -> RList(RightView(t))
AskWarn(t, op) == IF op.op \in {"balanced", "perfect", "strict"} /\ t = Nil THEN "UserWarning" ELSE ""

(* ------------------------------------------------------------- the picture *)
(* Drawn as boxes of text lines: the root over its two subtrees, joined by   *)
(* "_" above and "/", "\" below. tx: the text of each node in pre-order.     *)
Rep(c, n) == [i \in 1..Max2(0, n) |-> c]
Sp(n) == Rep(32, n)
RECURSIVE Box(_, _)
(* [b: lines, w: width, s, e: first and last column of the root (from 0)] *)
Box(t, tx) ==
  IF t = Nil THEN [b |-> <<>>, w |-> 0, s |-> 0, e |-> 0]
  ELSE
  LET txt == tx[1]
      n == Size(L(t))
      lb == Box(L(t), SubSeq(tx, 2, n + 1))
      rb == Box(R(t), SubSeq(tx, n + 2, Len(tx)))
      wr == Len(txt)
      lr == (lb.s + lb.e) \div 2 + 1
      rr == (rb.s + rb.e) \div 2
      hasL == lb.w > 0
      hasR == rb.w > 0
      line1 == (IF hasL THEN Sp(lr + 1) \o Rep(95, lb.w - lr) ELSE <<>>) \o txt
               \o (IF hasR THEN Rep(95, rr) \o Sp(rb.w - rr + 1) ELSE <<>>)
      line2 == (IF hasL THEN Sp(lr) \o <<47>> \o Sp(lb.w - lr) ELSE <<>>) \o Sp(wr)
               \o (IF hasR THEN Sp(rr) \o <<92>> \o Sp(rb.w - rr) ELSE <<>>)
      gap == wr + (IF hasL THEN 1 ELSE 0) + (IF hasR THEN 1 ELSE 0)
      start == IF hasL THEN lb.w + 1 ELSE 0
      rest == [i \in 1..Max2(Len(lb.b), Len(rb.b)) |->
                 (IF i <= Len(lb.b) THEN lb.b[i] ELSE Sp(lb.w)) \o Sp(gap)
                 \o (IF i <= Len(rb.b) THEN rb.b[i] ELSE Sp(rb.w))]
  IN [b |-> <<line1, line2>> \o rest, w |-> Len(line1), s |-> start, e |-> start + wr - 1]
Space(c) == c \in {32, 9, 10, 11, 12, 13, 28, 29, 30, 31, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
             \cup 8192..8202
RECURSIVE RStrip(_), Join(_)
RStrip(v) == IF v # <<>> /\ Space(v[Len(v)]) THEN RStrip(SubSeq(v, 1, Len(v) - 1)) ELSE v
Join(ls) == IF ls = <<>> THEN <<>> ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<10>> \o Join(Tail(ls))
Picture(t, tx) ==
  IF t = Nil THEN <<47, 32, 92>>
  ELSE LET b == Box(t, tx).b
       IN Join([i \in 1..(Len(b) - 1) |-> RStrip(b[i])])
=============================================================================
