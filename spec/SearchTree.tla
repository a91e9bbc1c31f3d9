---------------------------- MODULE SearchTree -----------------------------
(* Binary search trees of numbers: plain, AVL, red-black, splay trees and    *)
(* treaps. Two descriptions of each operation:                               *)
(*   - what it must achieve (After, and the rules each kind keeps), which is *)
(*     what recorded traces are judged by;                                   *)
(*   - how the library does it (AlgIns, AlgDel), from which the state space  *)
(*     is generated; model checking shows that it achieves the former.       *)
(* The mark of a node is its height (AVL), colour (red-black: "R"/"B") or    *)
(* priority (treap), and 0 otherwise.                                        *)
EXTENDS BinTree, TLC
CONSTANT Kind        \* "bst", "avl", "rb", "splay", "treap"

Has(s, x) == \E i \in DOMAIN s : Eq(s[i], x)
InsSorted(s, x) == LET k == Len(SelectSeq(s, LAMBDA y : NumLt(y, x)))
                   IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
Without(s, x) == SelectSeq(s, LAMBDA y : ~Eq(y, x))
Sorted(s) == \A i \in 1..(Len(s) - 1) : NumLt(s[i], s[i + 1])
Ordered(t) == Sorted(In(t))

RECURSIVE Sub(_, _), LastSeen(_, _), Max(_), Min(_)
Sub(t, x) == IF t = Nil \/ Eq(D(t), x) THEN t ELSE IF NumLt(x, D(t)) THEN Sub(L(t), x) ELSE Sub(R(t), x)
Member(t, x) == Sub(t, x) # Nil
(* the last value met on the way to x *)
LastSeen(t, x) ==
  IF Eq(D(t), x) THEN D(t)
  ELSE LET c == IF NumLt(x, D(t)) THEN L(t) ELSE R(t) IN IF c = Nil THEN D(t) ELSE LastSeen(c, x)
Max(t) == IF R(t) = Nil THEN D(t) ELSE Max(R(t))
Min(t) == IF L(t) = Nil THEN D(t) ELSE Min(L(t))

(* ------------------------------------------------------------ plain trees *)
RECURSIVE InsLeaf(_, _, _), DelMin(_), DelMax(_), DelSucc(_, _), DelPred(_, _), DelSplice(_, _)
InsLeaf(t, x, m) == IF t = Nil THEN Node(x, m, Nil, Nil)
                    ELSE IF Eq(x, D(t)) THEN t
                    ELSE IF NumLt(x, D(t)) THEN With(t, InsLeaf(L(t), x, m), R(t))
                    ELSE With(t, L(t), InsLeaf(R(t), x, m))
DelMin(t) == IF L(t) = Nil THEN R(t) ELSE With(t, DelMin(L(t)), R(t))
DelMax(t) == IF R(t) = Nil THEN L(t) ELSE With(t, L(t), DelMax(R(t)))
(* a removed value is replaced by its successor if it has a right subtree,   *)
(* by its predecessor otherwise, the library's way; or the other way round;  *)
(* or a node with one child is replaced by this child                        *)
DelSucc(t, x) ==
  IF t = Nil THEN Nil
  ELSE IF Eq(x, D(t)) THEN IF R(t) # Nil THEN Node(Min(R(t)), M(t), L(t), DelMin(R(t)))
                           ELSE IF L(t) # Nil THEN Node(Max(L(t)), M(t), DelMax(L(t)), R(t)) ELSE Nil
  ELSE IF NumLt(x, D(t)) THEN With(t, DelSucc(L(t), x), R(t)) ELSE With(t, L(t), DelSucc(R(t), x))
DelPred(t, x) ==
  IF t = Nil THEN Nil
  ELSE IF Eq(x, D(t)) THEN IF L(t) # Nil THEN Node(Max(L(t)), M(t), DelMax(L(t)), R(t))
                           ELSE IF R(t) # Nil THEN Node(Min(R(t)), M(t), L(t), DelMin(R(t))) ELSE Nil
  ELSE IF NumLt(x, D(t)) THEN With(t, DelPred(L(t), x), R(t)) ELSE With(t, L(t), DelPred(R(t), x))
DelSplice(t, x) ==
  IF t = Nil THEN Nil
  ELSE IF Eq(x, D(t)) THEN IF L(t) = Nil THEN R(t) ELSE IF R(t) = Nil THEN L(t)
                           ELSE Node(Min(R(t)), M(t), L(t), DelMin(R(t)))
  ELSE IF NumLt(x, D(t)) THEN With(t, DelSplice(L(t), x), R(t)) ELSE With(t, L(t), DelSplice(R(t), x))
DelAny(t, x) == { DelSucc(t, x), DelPred(t, x), DelSplice(t, x) }

(* ------------------------------------------------------------- rotations *)
RotL(t) == With(R(t), With(t, L(t), L(R(t))), R(R(t)))
RotR(t) == With(L(t), L(L(t)), With(t, R(L(t)), R(t)))

(* -------------------------------------------------------------------- AVL *)
Lv(t) == IF t = Nil THEN 0 ELSE 1 + M(t)         \* levels, from the stored height
H(t) == IF t = Nil THEN Nil ELSE Node(D(t), Max2(Lv(L(t)), Lv(R(t))), L(t), R(t))
HRotL(t) == LET u == RotL(t) IN H(With(u, H(L(u)), R(u)))
HRotR(t) == LET u == RotR(t) IN H(With(u, L(u), H(R(u))))
Fix(t) ==
  LET a == Lv(L(t)) b == Lv(R(t))
  IN IF a > b + 1 THEN IF Lv(L(L(t))) >= Lv(R(L(t))) THEN HRotR(t) ELSE HRotR(With(t, HRotL(L(t)), R(t)))
     ELSE IF b > a + 1 THEN IF Lv(R(R(t))) >= Lv(L(R(t))) THEN HRotL(t) ELSE HRotL(With(t, L(t), HRotR(R(t))))
     ELSE H(t)
RECURSIVE AvlIns(_, _), AvlDel(_, _), AvlDelMin(_), AvlDelMax(_)
AvlIns(t, x) == IF t = Nil THEN Node(x, 0, Nil, Nil)
                ELSE IF Eq(x, D(t)) THEN t
                ELSE IF NumLt(x, D(t)) THEN Fix(With(t, AvlIns(L(t), x), R(t)))
                ELSE Fix(With(t, L(t), AvlIns(R(t), x)))
AvlDelMin(t) == IF L(t) = Nil THEN R(t) ELSE Fix(With(t, AvlDelMin(L(t)), R(t)))
AvlDelMax(t) == IF R(t) = Nil THEN L(t) ELSE Fix(With(t, L(t), AvlDelMax(R(t))))
AvlDel(t, x) ==
  IF t = Nil THEN Nil
  ELSE IF Eq(x, D(t)) THEN IF R(t) # Nil THEN Fix(Node(Min(R(t)), M(t), L(t), AvlDelMin(R(t))))
                           ELSE IF L(t) # Nil THEN Fix(Node(Max(L(t)), M(t), AvlDelMax(L(t)), R(t))) ELSE Nil
  ELSE IF NumLt(x, D(t)) THEN Fix(With(t, AvlDel(L(t), x), R(t))) ELSE Fix(With(t, L(t), AvlDel(R(t), x)))
RECURSIVE HeightsRight(_)
HeightsRight(t) == t = Nil \/ (M(t) = Levels(t) - 1 /\ HeightsRight(L(t)) /\ HeightsRight(R(t)))

(* -------------------------------------------------------------- red-black *)
Red(t) == t # Nil /\ M(t) = "R"
Black(t) == ~Red(t)
Paint(t, c) == IF t = Nil THEN Nil ELSE Node(D(t), c, L(t), R(t))
(* insertion: after a red node was added below t, repair t if it now has a   *)
(* red child with a red child                                                *)
RbFix(t) ==
  IF M(t) = "R" THEN t
  ELSE LET bad(u) == Red(u) /\ (Red(L(u)) \/ Red(R(u))) IN
  IF (bad(L(t)) \/ bad(R(t))) /\ Red(L(t)) /\ Red(R(t))
  THEN Node(D(t), "R", Paint(L(t), "B"), Paint(R(t), "B"))
  ELSE IF bad(L(t))
  THEN LET u == IF Red(L(L(t))) THEN t ELSE With(t, RotL(L(t)), R(t))
           v == RotR(u) IN With(Paint(v, "B"), L(v), Paint(R(v), "R"))
  ELSE IF bad(R(t))
  THEN LET u == IF Red(R(R(t))) THEN t ELSE With(t, L(t), RotR(R(t)))
           v == RotL(u) IN With(Paint(v, "B"), Paint(L(v), "R"), R(v))
  ELSE t
RECURSIVE RbIns0(_, _)
RbIns0(t, x) == IF t = Nil THEN Node(x, "R", Nil, Nil)
                ELSE IF Eq(x, D(t)) THEN t
                ELSE IF NumLt(x, D(t)) THEN RbFix(With(t, RbIns0(L(t), x), R(t)))
                ELSE RbFix(With(t, L(t), RbIns0(R(t), x)))
RbIns(t, x) == Paint(RbIns0(t, x), "B")
(* removal: [t, s] with s TRUE when the subtree t misses one black node.     *)
(* FixL/FixR: the left/right subtree of t does.                              *)
Ok(t) == [t |-> t, s |-> FALSE]
RECURSIVE FixL(_), FixR(_)
FixL(t) ==
  IF Red(L(t)) THEN Ok(With(t, Paint(L(t), "B"), R(t)))
  ELSE IF Red(R(t))                                     \* red sibling
  THEN LET v == RotL(With(t, L(t), Paint(R(t), "B")))   \* black root, left child t
           a == FixL(Paint(L(v), "R"))
       IN IF a.s THEN Ok(With(v, Paint(a.t, "B"), R(v))) ELSE Ok(With(v, a.t, R(v)))
  ELSE LET s == R(t) IN
       IF Black(L(s)) /\ Black(R(s))
       THEN IF Red(t) THEN Ok(With(Paint(t, "B"), L(t), Paint(s, "R")))
            ELSE [t |-> With(t, L(t), Paint(s, "R")), s |-> TRUE]
       ELSE LET u == IF Black(R(s)) THEN RotR(With(Paint(s, "R"), Paint(L(s), "B"), R(s))) ELSE s
                v == RotL(With(t, L(t), u))
            IN Ok(Node(D(v), M(t), Paint(L(v), "B"), Paint(R(v), "B")))
FixR(t) ==
  IF Red(R(t)) THEN Ok(With(t, L(t), Paint(R(t), "B")))
  ELSE IF Red(L(t))
  THEN LET v == RotR(With(t, Paint(L(t), "B"), R(t)))
           a == FixR(Paint(R(v), "R"))
       IN IF a.s THEN Ok(With(v, L(v), Paint(a.t, "B"))) ELSE Ok(With(v, L(v), a.t))
  ELSE LET s == L(t) IN
       IF Black(L(s)) /\ Black(R(s))
       THEN IF Red(t) THEN Ok(With(Paint(t, "B"), Paint(s, "R"), R(t)))
            ELSE [t |-> With(t, Paint(s, "R"), R(t)), s |-> TRUE]
       ELSE LET u == IF Black(L(s)) THEN RotL(With(Paint(s, "R"), L(s), Paint(R(s), "B"))) ELSE s
                v == RotR(With(t, u, R(t)))
            IN Ok(Node(D(v), M(t), Paint(L(v), "B"), Paint(R(v), "B")))
InL(t, a) == IF a.s THEN FixL(With(t, a.t, R(t))) ELSE Ok(With(t, a.t, R(t)))
InR(t, a) == IF a.s THEN FixR(With(t, L(t), a.t)) ELSE Ok(With(t, L(t), a.t))
(* the child c of a spliced-out node of colour m *)
Spliced(m, c) == IF m = "R" THEN Ok(c) ELSE IF Red(c) THEN Ok(Paint(c, "B")) ELSE [t |-> c, s |-> TRUE]
RECURSIVE RbDelMin(_), RbDelMax(_), RbDel0(_, _), MinNode(_), MaxNode(_)
MinNode(t) == IF L(t) = Nil THEN t ELSE MinNode(L(t))
MaxNode(t) == IF R(t) = Nil THEN t ELSE MaxNode(R(t))
RbDelMin(t) == IF L(t) = Nil THEN Spliced(M(t), R(t)) ELSE InL(t, RbDelMin(L(t)))
RbDelMax(t) == IF R(t) = Nil THEN Spliced(M(t), L(t)) ELSE InR(t, RbDelMax(R(t)))
RbDel0(t, x) ==
  IF t = Nil THEN Ok(Nil)
  ELSE IF Eq(x, D(t))
  THEN IF Leaf(t) THEN Spliced(M(t), Nil)
       ELSE IF R(t) # Nil /\ (L(t) = Nil \/ Red(MinNode(R(t))) \/ ~Red(MaxNode(L(t))))
       THEN LET y == Min(R(t)) IN InR(Node(y, M(t), L(t), R(t)), RbDelMin(R(t)))
       ELSE LET y == Max(L(t)) IN InL(Node(y, M(t), L(t), R(t)), RbDelMax(L(t)))
  ELSE IF NumLt(x, D(t)) THEN InL(t, RbDel0(L(t), x)) ELSE InR(t, RbDel0(R(t), x))
RbDel(t, x) == IF Member(t, x) THEN Paint(RbDel0(t, x).t, "B") ELSE t

RECURSIVE NoRedRed(_), SameBlack(_), BlackDepth(_), ColoursKnown(_)
NoRedRed(t) == t = Nil \/ (~(Red(t) /\ (Red(L(t)) \/ Red(R(t)))) /\ NoRedRed(L(t)) /\ NoRedRed(R(t)))
BlackDepth(t) == IF t = Nil THEN 0 ELSE BlackDepth(L(t)) + (IF Black(t) THEN 1 ELSE 0)
SameBlack(t) == t = Nil \/ (BlackDepth(L(t)) = BlackDepth(R(t)) /\ SameBlack(L(t)) /\ SameBlack(R(t)))
ColoursKnown(t) == t = Nil \/ (M(t) \in {"R", "B"} /\ ColoursKnown(L(t)) /\ ColoursKnown(R(t)))
(* black nodes on a way down, the root not counted, the empty end counted *)
BlackHeight(t) == IF t = Nil THEN 0 ELSE BlackDepth(L(t)) + 1

(* ------------------------------------------------------------------ splay *)
RECURSIVE Way(_, _), Up(_, _)
(* the nodes above x, root first, each with the side x lies on *)
Way(t, x) == IF Eq(D(t), x) THEN <<>>
             ELSE IF NumLt(x, D(t)) THEN << [t |-> t, l |-> TRUE] >> \o Way(L(t), x)
             ELSE << [t |-> t, l |-> FALSE] >> \o Way(R(t), x)
Up(c, fs) ==
  LET n == Len(fs) IN
  IF n = 0 THEN c
  ELSE LET p == fs[n].t IN
  IF n = 1 THEN IF fs[1].l THEN With(c, L(c), With(p, R(c), R(p)))          \* zig
                ELSE With(c, With(p, L(p), L(c)), R(c))                     \* zag
  ELSE LET g == fs[n - 1].t
           r == IF fs[n - 1].l
                THEN IF fs[n].l THEN With(c, L(c), With(p, R(c), With(g, R(p), R(g))))   \* zig-zig
                     ELSE With(c, With(p, L(p), L(c)), With(g, R(c), R(g)))             \* zig-zag
                ELSE IF fs[n].l THEN With(c, With(g, L(g), L(c)), With(p, R(c), R(p)))  \* zag-zig
                     ELSE With(c, With(p, With(g, L(g), L(p)), L(c)), R(c))             \* zag-zag
       IN Up(r, SubSeq(fs, 1, n - 2))
Splay(t, x) == Up(Sub(t, x), Way(t, x))
Parent(t, x) == LET w == Way(t, x) IN IF w = <<>> THEN NoItem ELSE D(w[Len(w)].t)
(* the node above the place a removed value (or its replacement) left *)
SplayDel(t, x) ==
  IF ~Member(t, x) THEN Splay(t, LastSeen(t, x))
  ELSE LET s == Sub(t, x)
           u == DelSucc(t, x)
       IN IF u = Nil THEN Nil
          ELSE IF Leaf(s) THEN Splay(u, Parent(t, x))
          ELSE LET y == IF R(s) # Nil THEN Min(R(s)) ELSE Max(L(s))
                   p == Parent(t, y)
               IN Splay(u, IF Eq(p, x) THEN y ELSE p)

(* ------------------------------------------------------------------ treap *)
Pr(t) == M(t)
RECURSIVE TrIns(_, _, _), TrDel(_, _), Merge(_, _)
(* a new node goes up past every node whose priority is not higher *)
TrIns(t, x, p) ==
  IF t = Nil THEN Node(x, p, Nil, Nil)
  ELSE IF Eq(x, D(t)) THEN t
  ELSE IF NumLt(x, D(t))
  THEN LET a == TrIns(L(t), x, p) u == With(t, a, R(t))
       IN IF ~Member(L(t), x) /\ Eq(D(a), x) /\ ~NumLt(p, Pr(t)) THEN RotR(u) ELSE u
  ELSE LET a == TrIns(R(t), x, p) u == With(t, L(t), a)
       IN IF ~Member(R(t), x) /\ Eq(D(a), x) /\ ~NumLt(p, Pr(t)) THEN RotL(u) ELSE u
Merge(a, b) == IF a = Nil THEN b ELSE IF b = Nil THEN a
               ELSE IF NumLt(Pr(b), Pr(a)) THEN With(a, L(a), Merge(R(a), b))
               ELSE With(b, Merge(a, L(b)), R(b))
TrDel(t, x) == IF t = Nil THEN Nil
               ELSE IF Eq(x, D(t)) THEN Merge(L(t), R(t))
               ELSE IF NumLt(x, D(t)) THEN With(t, TrDel(L(t), x), R(t)) ELSE With(t, L(t), TrDel(R(t), x))
RECURSIVE HeapOrdered(_), InPr(_)
HeapOrdered(t) == t = Nil \/ ( /\ (L(t) # Nil => ~NumLt(Pr(t), Pr(L(t))))
                               /\ (R(t) # Nil => ~NumLt(Pr(t), Pr(R(t))))
                               /\ HeapOrdered(L(t)) /\ HeapOrdered(R(t)) )
(* priorities in the order of the values *)
InPr(t) == IF t = Nil THEN <<>> ELSE InPr(L(t)) \o <<Pr(t)>> \o InPr(R(t))
PrOf(t, x) == Pr(Sub(t, x))

(* --------------------------------------------------- the library's own way *)
AlgIns(t, x, p) ==
  CASE Kind = "bst" -> InsLeaf(t, x, 0)
    [] Kind = "avl" -> AvlIns(t, x)
    [] Kind = "rb" -> RbIns(t, x)
    [] Kind = "splay" -> Splay(InsLeaf(t, x, 0), x)
    [] Kind = "treap" -> TrIns(t, x, p)
AlgDel(t, x) ==
  CASE Kind = "bst" -> DelSucc(t, x)
    [] Kind = "avl" -> AvlDel(t, x)
    [] Kind = "rb" -> RbDel(t, x)
    [] Kind = "splay" -> IF t = Nil THEN Nil ELSE SplayDel(t, x)
    [] Kind = "treap" -> TrDel(t, x)
AlgGet(t, x) == IF Kind = "splay" /\ t # Nil THEN Splay(t, LastSeen(t, x)) ELSE t

(* ------------------------------------------------- what a call must achieve *)
ItemErr(x) == IF x.t = "none" THEN "ValueError" ELSE "TypeError"
BadIn(op) == { i \in DOMAIN op.xs : ~Number(op.xs[i]) }
FirstBad(op) == op.xs[CHOOSE i \in BadIn(op) : \A j \in BadIn(op) : i <= j]
RECURSIVE SetOf(_, _)
SetOf(xs, acc) == IF xs = <<>> THEN acc
                  ELSE SetOf(Tail(xs), IF Has(acc, Head(xs)) THEN acc ELSE InsSorted(acc, Head(xs)))
Pri(op) == IF op.y.t = "none" THEN FALSE ELSE ~Number(op.y)   \* an invalid priority?

(* v = [name -> tree]; the answer: s, the sorted contents afterwards of the  *)
(* trees the call may change ("gone" ones left out); res; warn               *)
Ans(s, r, wn) == [s |-> s, res |-> r, warn |-> wn]
Same == [o \in {} |-> <<>>]
To(o, s) == [m \in {o} |-> s]
Judge(v, op) ==
  IF op.op = "new" THEN
    IF op.f = "noniter" THEN Ans(Same, RExc("TypeError"), "")
    ELSE IF op.f = "obj" THEN Ans(To(op.o, In(v[op.a])), RNone, "")
    ELSE IF BadIn(op) # {} THEN Ans(Same, RExc(ItemErr(FirstBad(op))), "?")
    ELSE Ans(To(op.o, SetOf(op.xs, <<>>)), RNone, IF Len(SetOf(op.xs, <<>>)) = Len(op.xs) THEN "" ELSE "UserWarning")
  ELSE
  LET t == v[op.o]
      s == In(t)
  IN
  CASE op.op = "insert" ->
         IF ~Number(op.x) THEN Ans(Same, RExc(ItemErr(op.x)), "")
         ELSE IF Pri(op) THEN Ans(Same, RExc("TypeError"), "")
         ELSE IF Has(s, op.x) THEN Ans(To(op.o, s), RNone, "UserWarning")
         ELSE Ans(To(op.o, InsSorted(s, op.x)), RNone, "")
    [] op.op = "remove" ->
         IF ~Number(op.x) \/ ~Has(s, op.x) THEN Ans(To(op.o, s), RNone, "UserWarning")
         ELSE Ans(To(op.o, Without(s, op.x)), RNone, "")
    [] op.op = "contains" ->
         IF Kind = "splay" /\ ~Number(op.x) THEN Ans(Same, RExc(ItemErr(op.x)), "")
         ELSE Ans(To(op.o, s), RBool(Number(op.x) /\ Has(s, op.x)), "")
    [] op.op = "len" -> Ans(To(op.o, s), RInt(Len(s)), "")
    [] op.op = "is_empty" -> Ans(To(op.o, s), RBool(s = <<>>), "")
    [] op.op = "max" -> Ans(To(op.o, s), IF s = <<>> THEN RExc("IndexError") ELSE RVal(s[Len(s)]), "")
    [] op.op = "min" -> Ans(To(op.o, s), IF s = <<>> THEN RExc("IndexError") ELSE RVal(s[1]), "")
    [] op.op \in ShapeOps -> Ans(To(op.o, s), Ask(t, op), AskWarn(t, op))
    [] op.op = "kin" -> Ans(To(op.o, s), RList(Kin(t, op.x, Nil, Nil)), "")
    [] op.op = "black_height" -> Ans(To(op.o, s), RInt(BlackHeight(t)), "")
    [] op.op = "clear" -> Ans(To(op.o, <<>>), RNone, "")
    [] op.op = "drop" -> Ans(Same, RNone, "")
Rejected(r) == r.tag = "exc"
Mutators == {"new", "insert", "remove", "clear", "drop"}
=============================================================================
