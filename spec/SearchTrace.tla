----------------------------- MODULE SearchTrace ----------------------------
(* Recorded calls on real search trees. Clauses:                             *)
(*   set      the values after the call are not the required ones            *)
(*   order    the tree violates the search order                             *)
(*   res      answer of a question about the set                             *)
(*   shape    answer of a question about the shape                           *)
(*   kin      relatives of a node                                            *)
(*   reject   wrong, missing or needless refusal; warn: the same for warnings*)
(*   reject_state  a refused call changed something                          *)
(*   frame    a question, or a call on another tree, changed the tree        *)
(*   len      len() is not the number of nodes                               *)
(*   links    a node's parent is not the node above it                       *)
(*   leaf     (plain) insertion moved a node, or removal more than it needs  *)
(*   balance, height    (AVL)      rb_root, rb_red, rb_black, bh (red-black) *)
(*   root, splay (splay)           heap, prio (treap)                        *)
(*   alg      not how the specification's algorithm does it: never a         *)
(*            violation, counted to show how closely the model fits          *)
EXTENDS SearchTree, Trace
VARIABLES h, l, w, dead
vars == <<h, l, w, dead>>
Init == h \in DOMAIN Hist /\ l = 1 /\ w = [o \in {} |-> 0] /\ dead = FALSE

Blank == [op |-> "", o |-> "a", a |-> "", x |-> NoItem, y |-> NoItem, xs |-> <<>>, f |-> ""]
Seen(e, v) == LET S == (DOMAIN v \cup DOMAIN e.post) \ Gone(e)
              IN [o \in S |-> IF o \in DOMAIN e.post THEN Regrow(e.post[o].t) ELSE v[o]]

ResClause(op) == IF op.op \in ShapeOps THEN {"shape"}
                 ELSE IF op.op = "kin" THEN {"kin"}
                 ELSE IF op.op = "black_height" THEN {"bh"} ELSE {"res"}
(* what the kind demands of the tree t that was b before op *)
Rules(op, b, t, acc) ==
  CASE Kind = "bst" ->
         IF ~acc \/ op.op = "new" THEN {}
         ELSE IF op.op = "insert" /\ t # InsLeaf(b, op.x, 0) THEN {"leaf"}
         ELSE IF op.op = "remove" /\ Number(op.x) /\ t \notin DelAny(b, op.x) THEN {"leaf"} ELSE {}
    [] Kind = "avl" -> (IF FullyBalanced(t) THEN {} ELSE {"balance"})
                       \cup (IF HeightsRight(t) THEN {} ELSE {"height"})
    [] Kind = "rb" -> (IF ColoursKnown(t) /\ Black(t) THEN {} ELSE {"rb_root"})
                      \cup (IF NoRedRed(t) THEN {} ELSE {"rb_red"})
                      \cup (IF SameBlack(t) THEN {} ELSE {"rb_black"})
    [] Kind = "splay" ->
         IF ~acc \/ t = Nil \/ op.op = "new" \/ b = Nil THEN {}
         ELSE IF op.op = "insert" THEN
                (IF Eq(D(t), op.x) THEN {} ELSE {"root"})
                \cup (IF t = Splay(InsLeaf(b, op.x, 0), op.x) THEN {} ELSE {"splay"})
         ELSE IF op.op = "contains" \/ (op.op = "remove" /\ Number(op.x) /\ ~Member(b, op.x)) THEN
                (IF Eq(D(t), LastSeen(b, op.x)) THEN {} ELSE {"root"})
                \cup (IF t = Splay(b, LastSeen(b, op.x)) THEN {} ELSE {"splay"})
         ELSE IF op.op = "remove" /\ Number(op.x) THEN
                IF \E u \in DelAny(b, op.x) : Member(u, D(t)) /\ Splay(u, D(t)) = t
                THEN {} ELSE {"splay"}
         ELSE {}
    [] Kind = "treap" ->
         (IF HeapOrdered(t) THEN {} ELSE {"heap"})
         \cup (IF op.op = "insert" /\ acc /\ op.y.t # "none" /\ ~Member(b, op.x) /\ Member(t, op.x)
                  /\ PrOf(t, op.x) # op.y THEN {"prio"} ELSE {})
         \cup (IF op.op # "new" /\ \E i \in DOMAIN In(t) : LET y == In(t)[i] IN
                     Member(b, y) /\ Member(t, y) /\ PrOf(t, y) # PrOf(b, y) THEN {"prio"} ELSE {})
Alg(op, b, t, acc) ==
  IF ~acc \/ op.op = "new" THEN {}
  ELSE IF op.op = "insert" /\ (Kind # "treap" \/ (op.y.t # "none" /\ ~Member(b, op.x))) /\ t # AlgIns(b, op.x, op.y) THEN {"alg"}
  ELSE IF op.op = "remove" /\ Number(op.x) /\ t # AlgDel(b, op.x) THEN {"alg"} ELSE {}

Clauses(e, op, x, seen) ==
  LET rej == Rejected(x.res)
      acc == ~rej
      res == Res(e)
      before == IF op.o \in DOMAIN w THEN w[op.o] ELSE Nil
      Others == { o \in DOMAIN w : o # op.o /\ (o \notin DOMAIN seen \/ seen[o] # w[o]) }
      mine == op.o \in DOMAIN seen
      t == IF mine THEN seen[op.o] ELSE Nil
      lost == IF op.op = "drop" THEN mine ELSE ~mine /\ (op.o \in DOMAIN w \/ acc)
      set == IF acc /\ op.op # "drop" /\ mine THEN In(t) # x.s[op.o] ELSE FALSE
      moved == mine /\ op.o \in DOMAIN w /\ t # before
      (* a question may only move nodes in a splay tree, when it searches *)
      ask == op.op \notin Mutators /\ ~(Kind = "splay" /\ op.op = "contains")
      p == op.o \in DOMAIN e.post
  IN (IF res = x.res THEN {} ELSE IF op.op \in ShapeOps THEN {"shape"}
      ELSE IF rej \/ Rejected(res) THEN {"reject"} ELSE ResClause(op))
     \cup (IF x.warn = "?" \/ Warn(e) = x.warn THEN {} ELSE {"warn"})
     \cup (IF lost \/ set THEN {"set"} ELSE {})
     \cup (IF Others # {} \/ (ask /\ moved /\ acc) THEN {"frame"} ELSE {})
     \cup (IF rej /\ moved THEN {"reject_state"} ELSE {})
     \cup (IF p /\ ~Ordered(t) THEN {"order"} ELSE {})
     \cup (IF p /\ e.post[op.o].len # Size(t) THEN {"len"} ELSE {})
     \cup (IF p /\ e.post[op.o].links = "bad" THEN {"links"} ELSE {})
     \cup (IF mine /\ Ordered(t) /\ Ordered(before)
           THEN Rules(op, before, t, acc) \cup Alg(op, before, t, acc) ELSE {})

Next ==
  /\ l <= Len(Events(h))
  /\ l' = l + 1 /\ h' = h
  /\ LET e == Events(h)[l]
         op == e.op @@ Blank
     IN
     IF dead THEN UNCHANGED <<w, dead>>
     ELSE IF Broken(e) THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"broken"})
     ELSE IF (op.op # "new" /\ op.o \notin DOMAIN w) \/ (op.a # "" /\ op.a \notin DOMAIN w)
             \/ (op.op = "kin" /\ ~(Ordered(w[op.o]) /\ Member(w[op.o], op.x)))
          THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"~skipped"})
     ELSE LET seen == Seen(e, w)
              x == Judge(w, op)
          IN /\ Report(h, l, Clauses(e, op, x, seen))
             /\ w' = seen
             /\ dead' = FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
