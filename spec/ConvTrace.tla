----------------------------- MODULE ConvTrace ------------------------------
(* Recorded conversions and changes of real structures. Clauses:             *)
(*   res     the call did not end as it should                               *)
(*   holds   the structure made or changed holds something else              *)
(*   frame   another structure (that it was made from, say) changed          *)
EXTENDS ConvWorld, Trace
VARIABLES h, l, w, dead
vars == <<h, l, w, dead>>
Blank == [op |-> "", o |-> "", a |-> "", k |-> "", x |-> NoItem, xs |-> <<>>, f |-> ""]
(* w: structure -> [k, s, look] *)
Init == h \in DOMAIN Hist /\ l = 1 /\ w = [o \in {} |-> 0] /\ dead = FALSE
Seen(e, v) == LET S == (DOMAIN v \cup DOMAIN e.post) \ Gone(e)
              IN [o \in S |-> IF o \in DOMAIN e.post THEN e.post[o] ELSE v[o]]
Fits(op, seen, k, s) == op.o \in DOMAIN seen /\ seen[op.o].k = k /\ Holds(k, s, seen[op.o].s)
                         /\ InOrder(k, seen[op.o].s, seen[op.o].ord)
Own(op, v, seen) ==
  CASE op.op = "make" -> Fits(op, seen, op.k, op.xs)
    [] op.op = "conv" -> Fits(op, seen, op.k, v[op.a].s)
    [] op.op = "join" -> Fits(op, seen, v[op.o].k, v[op.o].s \o v[op.a].s)
    [] op.op = "put" -> Fits(op, seen, v[op.o].k, With(v[op.o].s, op.x))
    [] op.op = "cut" -> Fits(op, seen, v[op.o].k, Less(v[op.o].k, v[op.o].s, op.x))
    [] op.op = "empty" -> Fits(op, seen, v[op.o].k, <<>>)
    [] OTHER -> op.o \notin DOMAIN seen
Fails(op, v) == op.op = "conv" /\ ~Convertible(op.k, v[op.a].k, v[op.a].s)
Clauses(e, op, v, seen) ==
  LET Rest == (DOMAIN v \cup DOMAIN seen) \ (IF Fails(op, v) THEN {} ELSE {op.o}) IN
  (IF Res(e) = (IF Fails(op, v) THEN RExc("TypeError") ELSE RNone) THEN {} ELSE {"res"})
  \cup (IF Fails(op, v) \/ Own(op, v, seen) THEN {} ELSE {"holds"})
  \cup (IF \E o \in Rest : o \notin DOMAIN v \/ o \notin DOMAIN seen \/ v[o] # seen[o] THEN {"frame"} ELSE {})
Next ==
  /\ l <= Len(Events(h))
  /\ l' = l + 1 /\ h' = h
  /\ LET e == Events(h)[l]
         op == e.op @@ Blank
     IN
     IF dead THEN UNCHANGED <<w, dead>>
     ELSE IF Broken(e) THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"broken"})
     ELSE IF (op.op \notin {"make", "conv"} /\ op.o \notin DOMAIN w) \/ (op.a # "" /\ op.a \notin DOMAIN w)
          THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"~skipped"})
     ELSE LET seen == Seen(e, w)
          IN Report(h, l, Clauses(e, op, w, seen)) /\ w' = seen /\ dead' = FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
