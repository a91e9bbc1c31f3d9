----------------------------- MODULE FailTrace ------------------------------
(* Recorded calls on real structures, failing ones among them. Clauses:      *)
(*   error   a failing call did not fail, or with another error              *)
(*   trace   a failing call changed how the structure looks                  *)
(*   answer  a call answered something else than in the structure's solo     *)
(*   look    the structure looks different from what it does in its solo     *)
(*   frame   a call on one structure changed how another one looks           *)
EXTENDS FailWorld, Trace
VARIABLES h, l, w, dead
vars == <<h, l, w, dead>>
Blank == [op |-> "", o |-> "", kind |-> "", n |-> 0, c |-> ""]
(* w: structure -> [kind, solo, pos, now] *)
Init == h \in DOMAIN Hist /\ l = 1 /\ w = [o \in {} |-> 0] /\ dead = FALSE
Now(e, o) == IF o \in DOMAIN e.post THEN e.post[o].s ELSE IF o \in DOMAIN w THEN w[o].now ELSE ""
Cast(e, op) == LET r == Res(e).l IN
  [kind |-> op.kind, solo |-> [i \in 1..(Len(r) \div 2) |-> [r |-> r[2 * i - 1], s |-> r[2 * i]]], pos |-> 0, now |-> ""]
Put(o, v) == [x \in DOMAIN w \cup {o} |-> IF x = o THEN v ELSE w[x]]
Frame(e, op) == IF \E x \in DOMAIN w : x # op.o /\ Now(e, x) # w[x].now THEN {"frame"} ELSE {}
StepClauses(e, op) ==
  LET k == w[op.o].pos + 1 s == w[op.o].solo IN
  (IF Res(e).s = s[k].r THEN {} ELSE {"answer"})
  \cup (IF Now(e, op.o) = Looks(s, k) THEN {} ELSE {"look"})
  \cup Frame(e, op)
FailClauses(e, op) ==
  (IF Right(w[op.o].kind, op.c, Res(e)) THEN {} ELSE {"error"})
  \cup (IF Now(e, op.o) = Looks(w[op.o].solo, w[op.o].pos) THEN {} ELSE {"trace"})
  \cup Frame(e, op)
Next ==
  /\ l <= Len(Events(h))
  /\ l' = l + 1 /\ h' = h
  /\ LET e == Events(h)[l]
         op == e.op @@ Blank
         seen(d) == [x \in DOMAIN w |-> [w[x] EXCEPT !.now = Now(e, x), !.pos = IF x = op.o THEN @ + d ELSE @]]
     IN
     IF dead THEN UNCHANGED <<w, dead>>
     ELSE IF Broken(e) THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"broken"})
     ELSE IF op.op = "cast" THEN w' = Put(op.o, Cast(e, op)) /\ dead' = FALSE
     ELSE IF op.o \notin DOMAIN w THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"~skipped"})
     ELSE IF op.op = "fail"
     THEN IF w[op.o].pos = 0 \/ op.c \notin Fails(w[op.o].kind)
          THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"~skipped"})
          ELSE Report(h, l, FailClauses(e, op)) /\ w' = seen(0) /\ dead' = FALSE
     ELSE IF w[op.o].pos >= Len(w[op.o].solo)
          THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"~skipped"})
     ELSE Report(h, l, StepClauses(e, op)) /\ w' = seen(1) /\ dead' = FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
