----------------------------- MODULE SkipTrace -----------------------------
(* Recorded calls on real skip lists. Clauses: res, reject, reject_state,    *)
(* post (elements), frame, len as in ListTrace;                              *)
(*   level   the levels are not nested sorted subsequences, or one above the *)
(*           first is empty                                                  *)
(*   step    the levels changed otherwise than by adding (removing) the one  *)
(*           value to (from) a bottom stretch of levels                      *)
(*   down    sentinels or the pointers between the levels are wrong          *)
EXTENDS SkipWorld, Trace
VARIABLES h, l, w, dead
vars == <<h, l, w, dead>>
Init == h \in DOMAIN Hist /\ l = 1 /\ w = [o \in {} |-> 0] /\ dead = FALSE

Blank == [op |-> "", o |-> "a", a |-> "", ti |-> "int", i |-> 0, x |-> NoItem, xs |-> <<>>, f |-> "", h |-> 0]
(* when the levels cannot be observed, only the elements count *)
Lv(q) == IF q.lv = <<>> THEN <<q.it>> ELSE q.lv
Seen(e, v) == LET D == (DOMAIN v \cup DOMAIN e.post) \ Gone(e)
              IN [o \in D |-> IF o \in DOMAIN e.post THEN Lv(e.post[o]) ELSE v[o]]
Touch(op, seen) == IF op.o \in DOMAIN seen THEN Max2(1, Height(seen[op.o], op.x)) ELSE 1

Clauses(e, op, x, seen) ==
  LET rej == Rejected(x.res)
      res == Res(e)
      opaque(o) == o \in DOMAIN e.post /\ e.post[o].lv = <<>>
      Odd == { o \in DOMAIN x.w : o \notin DOMAIN seen \/ Base(seen[o]) # Base(x.w[o]) }
             \cup (DOMAIN seen \ DOMAIN x.w)
      Lodd == IF op.op = "new" THEN { o \in DOMAIN w \ {op.o} : o \in DOMAIN seen /\ seen[o] # w[o] }
              ELSE { o \in DOMAIN x.w : o \in DOMAIN seen /\ ~opaque(o) /\ seen[o] # x.w[o] }
  IN (IF op.op = "height" /\ Len(w[op.o]) = 1 THEN {}      \* perhaps unobservable
      ELSE IF res = x.res THEN {} ELSE IF rej \/ Rejected(res) THEN {"reject"} ELSE {"res"})
     \cup (IF Odd = {} THEN {} ELSE IF rej THEN {"reject_state"}
           ELSE (IF op.o \in Odd THEN {"post"} ELSE {}) \cup (IF Odd \ {op.o} # {} THEN {"frame"} ELSE {}))
     \cup (IF Lodd \ Odd = {} THEN {} ELSE {"step"})
     \cup UNION { LET q == e.post[o] IN
                    (IF q.len # Len(q.it) THEN {"len"} ELSE {})
                    \cup (IF q.lv # <<>> /\ (~WellFormed(q.lv) \/ q.lv[1] # q.it) THEN {"level"} ELSE {})
                    \cup (IF q.down = "bad" THEN {"down"} ELSE {}) : o \in DOMAIN e.post }

Next ==
  /\ l <= Len(Events(h))
  /\ l' = l + 1 /\ h' = h
  /\ LET e == Events(h)[l]
         op == e.op @@ Blank
     IN
     IF dead THEN UNCHANGED <<w, dead>>
     ELSE IF Broken(e) THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"broken"})
     ELSE IF (op.op # "new" /\ op.o \notin DOMAIN w) \/ (op.a # "" /\ op.a \notin DOMAIN w) THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"~skipped"})
     ELSE LET seen == Seen(e, w)
              x == Apply(w, op, Touch(op, seen))
          IN /\ Report(h, l, Clauses(e, op, x, seen))
             /\ dead' = FALSE
             /\ w' = seen
Spec == Init /\ [][Next]_vars
=============================================================================
