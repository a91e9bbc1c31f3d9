------------------------------ MODULE SearchMC ------------------------------
(* Every tree of one kind over the values 0..Keys-1 that the library's own   *)
(* algorithm can reach (treaps: with priorities 0..Pris-1).                  *)
EXTENDS SearchTree, Json
CONSTANTS Keys, Pris
VARIABLES t, path
Blank == [op |-> "", o |-> "a", a |-> "", x |-> NoItem, y |-> NoItem, xs |-> <<>>, f |-> ""]
Op(n) == [Blank EXCEPT !.op = n]
Vals == { IF k = 0 THEN Flt(0) ELSE Num(k) : k \in 0..(Keys - 1) }
Ps == IF Kind = "treap" THEN { Num(p - 1) : p \in 0..(Pris - 1) } ELSE {NoItem}
InsOps == { [Op("insert") EXCEPT !.x = x, !.y = p] : x \in Vals, p \in Ps }
DelOps == { [Op("remove") EXCEPT !.x = x] : x \in Vals }
GetOps == { [Op("contains") EXCEPT !.x = x] : x \in Vals \cup {Num(-1), Num(Keys)} }
Muts == InsOps \cup DelOps \cup {Op("clear")} \cup (IF Kind = "splay" THEN GetOps ELSE {})
Text == [t |-> "s", v |-> <<49>>, p |-> "str"]
Asks == (IF Kind = "splay" THEN {} ELSE GetOps)
   \cup { Op(f) : f \in {"len", "is_empty", "max", "min"} \cup (ShapeOps \ {"traverse"}) }
   \cup { [Op("traverse") EXCEPT !.f = f] : f \in {"", "inorder", "postorder", "preorder", "depth-first",
                "breadth-first", "InOrder", "Depth-First", "POSTORDER", "notstr", "zigzag"} }
   \cup (IF Kind = "rb" THEN {Op("black_height")} ELSE {})
   \cup { [Op(f) EXCEPT !.x = x] : f \in {"insert", "contains", "remove"}, x \in {NoItem, Text, ExtraItem} }
   \cup (IF Kind = "treap" THEN { [Op("insert") EXCEPT !.x = Num(1), !.y = Text] } ELSE {})
   \cup { [Op("kin") EXCEPT !.x = x] : x \in { y \in Vals : Member(t, y) } }
After(op) == CASE op.op = "insert" /\ op \in InsOps -> AlgIns(t, op.x, op.y)
               [] op.op = "remove" -> AlgDel(t, op.x)
               [] op.op = "contains" /\ Number(op.x) -> AlgGet(t, op.x)
               [] op.op = "clear" -> Nil
               [] OTHER -> t
Init == t = Nil /\ path = << Op("new") >>
Next == \E op \in Muts : t' = After(op) /\ path' = Append(path, op)
Spec == Init /\ [][Next]_<<t, path>>
View == t
EmitState ==
  LET loops == { op \in Muts : After(op) = t } \cup Asks
  IN PrintT("STATE " \o ToJson([pre |-> path, loops |-> loops,
                                 steps |-> { op \in Muts : After(op) # t }, tails |-> {}]))
(* the algorithms keep the rules of their kind *)
Rules == /\ Ordered(t)
         /\ Kind = "avl" => FullyBalanced(t) /\ HeightsRight(t)
         /\ Kind = "rb" => ColoursKnown(t) /\ Black(t) /\ NoRedRed(t) /\ SameBlack(t)
         /\ Kind = "treap" => HeapOrdered(t)
(* and achieve what a call must achieve *)
V == [o \in {"a"} |-> t]
Achieves == \A op \in Muts : LET j == Judge(V, op) IN
              /\ ~Rejected(j.res)
              /\ In(After(op)) = j.s["a"]
              /\ op.op = "contains" => j.res.n = (IF Has(In(t), op.x) THEN 1 ELSE 0)
(* the height bounds that balance is for *)
RECURSIVE Fib(_)
Fib(n) == IF n < 2 THEN n ELSE Fib(n - 1) + Fib(n - 2)
Shallow == /\ Kind = "avl" => Size(t) >= Fib(Levels(t) + 2) - 1
           /\ Kind = "rb" => Pow2(Levels(t)) <= (Size(t) + 1) * (Size(t) + 1)
(* splaying keeps the order and brings exactly the sought value up *)
Splays == Kind = "splay" => \A x \in { y \in Vals : Member(t, y) } :
            LET u == Splay(t, x) IN D(u) = x /\ In(u) = In(t)
(* a treap is determined by its values and distinct priorities *)
Unique == Kind = "treap" => \A x \in { y \in Vals : Member(t, y) } :
            (\A i, j \in DOMAIN InPr(t) : InPr(t)[i] = InPr(t)[j] => i = j)
               => TrIns(TrDel(t, x), x, PrOf(t, x)) = t
Refusals == \A op \in Asks : LET j == Judge(V, op) IN
              Rejected(j.res) => (j.s = Same \/ j.s = To("a", In(t)))
(* views, levels and traversals of one tree are consistent *)
Views == /\ Len(Pre(t)) = Size(t) /\ Len(Post(t)) = Size(t) /\ Len(Bfs(t)) = Size(t)
         /\ Mirror(Mirror(t)) = t /\ In(Mirror(t)) = Reverse(In(t))
         /\ LeftView(Mirror(t)) = RightView(t) /\ Len(PerLevel(t)) = Levels(t)
         /\ (Perfect(t) => Strict(t) /\ FullyBalanced(t))
         /\ (Perfect(t) <=> Size(t) = Pow2(Levels(t)) - 1)
=============================================================================
