------------------------------ MODULE KinTrace ------------------------------
(* Recorded calls on single nodes. Clauses: res (an answer), link (a node is *)
(* not as required after a call), reject, reject_state, prio (a priority     *)
(* that was not given is no whole number from 0 to 100), warn.               *)
EXTENDS KinWorld, Trace
VARIABLES h, l, w, dead
vars == <<h, l, w, dead>>
Init == h \in DOMAIN Hist /\ l = 1 /\ w = [o \in {} |-> 0] /\ dead = FALSE
Blank == [op |-> "", ty |-> "", o |-> "a", a |-> "", x |-> NoItem, tx |-> "", q |-> NoItem, f |-> "", n |-> 0, ch |-> "", as |-> <<>>]
Seen(e, v) == [o \in DOMAIN v \cup DOMAIN e.post |-> IF o \in DOMAIN e.post THEN e.post[o] ELSE v[o]]
Chosen(q) == q.t = "n" /\ q.p = "int" /\ q.v[1] = 0 /\ q.v[2] \in 0..400 /\ q.v[2] % 4 = 0
Drawn(op) == op.op = "new" /\ op.ty \in {"prio", "treap"} /\ op.q.t = "none" /\ NewErr(op) = ""
Clauses(op, x, res, seen, warn) ==
  LET drawn == Drawn(op) /\ op.o \in DOMAIN seen
      s == IF drawn THEN [x.s EXCEPT ![op.o].q = seen[op.o].q] ELSE x.s
  IN (IF res = x.res THEN {} ELSE IF Rejected(res) \/ Rejected(x.res) THEN {"reject"} ELSE {"res"})
     \cup (IF warn THEN {"warn"} ELSE {})
     \cup (IF seen = s THEN {} ELSE IF Rejected(x.res) THEN {"reject_state"} ELSE {"link"})
     \cup (IF drawn /\ ~Chosen(seen[op.o].q) THEN {"prio"} ELSE {})
Next ==
  /\ l <= Len(Events(h))
  /\ l' = l + 1 /\ h' = h
  /\ LET e == Events(h)[l]
         op == e.op @@ Blank
         names == {op.o} \cup ({op.a} \ {"", "#"}) \cup { op.as[i] : i \in DOMAIN op.as }
     IN
     IF dead THEN UNCHANGED <<w, dead>>
     ELSE IF Broken(e) THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"broken"})
     ELSE IF op.op # "new" /\ ~(names \subseteq DOMAIN w) THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"~skipped"})
     ELSE IF op.op # "new" /\ ~Asked(w, op) THEN w' = Seen(e, w) /\ dead' = FALSE /\ Report(h, l, {"~unasked"})
     ELSE LET seen == Seen(e, w)
              x == Judge(w, op)
          IN Report(h, l, Clauses(op, x, Res(e), seen, Warn(e) # "")) /\ w' = seen /\ dead' = FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
