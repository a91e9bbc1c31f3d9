----------------------------- MODULE ContTrace -----------------------------
(* Recorded calls on the real containers against Containers!Apply. Clauses:  *)
(*   res, warn, post, frame, reject, reject_state as in ListTrace;           *)
(*   prio     an element got another priority than the one it was given      *)
(*   cap      an object holds more elements than its capacity allows         *)
EXTENDS Containers, Trace
VARIABLES h, l, w, dead
vars == <<h, l, w, dead>>
Init == h \in DOMAIN Hist /\ l = 1 /\ w = [o \in {} |-> 0] /\ dead = FALSE

Blank == [op |-> "", o |-> "a", ki |-> "", ct |-> "absent", cap |-> 0, x |-> NoItem,
          pt |-> "absent", p |-> NoItem, f |-> ""]
Els(q) == [i \in DOMAIN q.xs |-> El(q.xs[i], q.ps[i])]
Seen(e, v, x) ==
  LET D == (DOMAIN v \cup DOMAIN e.post) \ Gone(e)
  IN [o \in D |->   \* the capacity is not observed, only its effects are
        [kind |-> IF o \in DOMAIN e.post THEN e.post[o].kind ELSE v[o].kind,
         cap |-> IF o \in DOMAIN x THEN x[o].cap ELSE -1,
         s |-> IF o \in DOMAIN e.post THEN Els(e.post[o]) ELSE v[o].s]]
(* the priority the call gave the new element, as observed; an object that   *)
(* is not listed looks as before: the same value with the same priority may  *)
(* have taken the place of the only element                                  *)
Given(e, op) == IF op.op # "enqueue" THEN op.p
                ELSE IF op.o \in DOMAIN e.post
                     THEN IF e.post[op.o].ps # <<>> THEN e.post[op.o].ps[1] ELSE op.p
                ELSE IF op.pt = "absent" /\ w[op.o].s # <<>> THEN w[op.o].s[1].p ELSE op.p

Clauses(e, op, x, seen) ==
  LET rej == Rejected(x.res)
      res == Res(e)
      Odd == { o \in DOMAIN x.w : o \notin DOMAIN seen \/ seen[o] # x.w[o] }
             \cup (DOMAIN seen \ DOMAIN x.w)
  IN (IF res = x.res THEN {} ELSE IF rej \/ Rejected(res) THEN {"reject"} ELSE {"res"})
     \cup (IF Warn(e) = x.warn THEN {} ELSE {"warn"})
     \cup (IF Odd = {} THEN {}
           ELSE IF rej THEN {"reject_state"}
           ELSE (IF op.o \in Odd THEN {"post"} ELSE {}) \cup (IF Odd \ {op.o} # {} THEN {"frame"} ELSE {}))
     \cup (IF op.op = "enqueue" /\ ~rej /\ w[op.o].kind = "PriorityQueue" /\ w[op.o].cap # 0
              /\ ~PrioOk(op, Given(e, op)) THEN {"prio"} ELSE {})
     \cup (IF \E o \in DOMAIN seen : seen[o].cap # -1 /\ Len(seen[o].s) > seen[o].cap THEN {"cap"} ELSE {})
     \cup (IF \E o \in DOMAIN e.post : e.post[o].len # Len(e.post[o].xs) THEN {"len"} ELSE {})

Next ==
  /\ l <= Len(Events(h))
  /\ l' = l + 1 /\ h' = h
  /\ LET e == Events(h)[l]
         op == e.op @@ Blank
     IN
     IF dead THEN UNCHANGED <<w, dead>>
     ELSE IF Broken(e) THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"broken"})
     ELSE IF op.op # "new" /\ op.o \notin DOMAIN w THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"~skipped"})
     ELSE LET x == Apply(w, op, Given(e, op))
              seen == Seen(e, w, x.w)
          IN /\ Report(h, l, Clauses(e, op, x, seen))
             /\ dead' = FALSE
             /\ w' = seen
Spec == Init /\ [][Next]_vars
=============================================================================
