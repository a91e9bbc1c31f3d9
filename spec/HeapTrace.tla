----------------------------- MODULE HeapTrace ------------------------------
(* Recorded calls on real heaps. Clauses: bag (the values after the call),   *)
(* heap (heap order), res, reject, warn, reject_state, frame, len as in      *)
(* SearchTrace, iter (iteration is not to_list), alg (informative only).     *)
EXTENDS HeapWorld, Trace
VARIABLES h, l, w, dead
vars == <<h, l, w, dead>>
Init == h \in DOMAIN Hist /\ l = 1 /\ w = [o \in {} |-> 0] /\ dead = FALSE
Blank == [op |-> "", o |-> "a", a |-> "", x |-> NoItem, xs |-> <<>>, f |-> ""]
Seen(e, v) == LET S == (DOMAIN v \cup DOMAIN e.post) \ Gone(e)
              IN [o \in S |-> IF o \in DOMAIN e.post THEN e.post[o].s ELSE v[o]]
SameRes(a, b, s) == a = b \/ ( /\ a.tag = "val" /\ b.tag = "val" /\ Len(a.l) = 1
                               /\ Eq(a.l[1], b.l[1]) /\ Times(s, a.l[1]) > 0 )
Clauses(e, op, x, seen) ==
  LET rej == Rejected(x.res)
      res == Res(e)
      known == op.o \in DOMAIN w
      before == IF known THEN w[op.o] ELSE <<>>
      mine == op.o \in DOMAIN seen
      s == IF mine THEN seen[op.o] ELSE <<>>
      Others == { o \in DOMAIN w : o # op.o /\ (o \notin DOMAIN seen \/ seen[o] # w[o]) }
      p == op.o \in DOMAIN e.post
  IN (IF SameRes(res, x.res, before) THEN {} ELSE IF rej \/ Rejected(res) THEN {"reject"} ELSE {"res"})
     \cup (IF Warn(e) = x.warn THEN {} ELSE {"warn"})
     \cup (IF Others # {} THEN {"frame"} ELSE {})
     \cup (IF x.m = "gone" THEN IF mine THEN {"bag"} ELSE {}
           ELSE IF rej THEN IF known /\ (~mine \/ s # before) THEN {"reject_state"} ELSE {}
           ELSE IF ~mine THEN {"bag"}
           ELSE CASE x.m = "" -> IF SameBag(s, before) THEN IF s = before \/ op.op \in Muts THEN {} ELSE {"frame"} ELSE {"bag"}
                  [] x.m = "bag" -> IF SameBag(s, x.s) THEN {} ELSE {"bag"}
                  [] x.m = "one" -> IF Lost(before, s, x.s[1]) THEN {} ELSE {"bag"})
     \cup (IF p /\ ~Ordered(s) THEN {"heap"} ELSE {})
     \cup (IF p /\ e.post[op.o].len # Len(s) THEN {"len"} ELSE {})
     \cup (IF p /\ e.post[op.o].it # s THEN {"iter"} ELSE {})
     \cup (IF mine /\ known /\ op.op \in Muts /\ ~rej /\ (op.op # "remove" \/ Number(op.x))
               /\ s # Alg(before, op) THEN {"alg"} ELSE {})
Next ==
  /\ l <= Len(Events(h))
  /\ l' = l + 1 /\ h' = h
  /\ LET e == Events(h)[l]
         op == e.op @@ Blank
     IN
     IF dead THEN UNCHANGED <<w, dead>>
     ELSE IF Broken(e) THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"broken"})
     ELSE IF (op.op # "new" /\ op.o \notin DOMAIN w) \/ (op.a # "" /\ op.a \notin DOMAIN w)
          THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"~skipped"})
     ELSE LET seen == Seen(e, w)
              x == Judge(w, op)
          IN Report(h, l, Clauses(e, op, x, seen)) /\ w' = seen /\ dead' = FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
