----------------------------- MODULE ApartTrace -----------------------------
(* Recorded calls on several real structures, used in turn. Clauses:         *)
(*   answer  a call answered something else than in the structure's solo     *)
(*   look    the structure looks different from what it does in its solo     *)
(*   frame   a call on one structure changed how another one looks           *)
EXTENDS ApartWorld, Trace
VARIABLES h, l, w, dead
vars == <<h, l, w, dead>>
Blank == [op |-> "", o |-> "", kind |-> "", n |-> 0]
(* w: structure -> [solo, pos, now] *)
Init == h \in DOMAIN Hist /\ l = 1 /\ w = [o \in {} |-> 0] /\ dead = FALSE
Now(e, o) == IF o \in DOMAIN e.post THEN e.post[o].s ELSE IF o \in DOMAIN w THEN w[o].now ELSE ""
Cast(e, op) == LET r == Res(e).l IN
  [solo |-> [i \in 1..(Len(r) \div 2) |-> [r |-> r[2 * i - 1], s |-> r[2 * i]]], pos |-> 0, now |-> ""]
Put(o, v) == [x \in DOMAIN w \cup {o} |-> IF x = o THEN v ELSE w[x]]
Clauses(e, op) ==
  LET k == w[op.o].pos + 1 s == w[op.o].solo IN
  (IF Res(e).s = s[k].r THEN {} ELSE {"answer"})
  \cup (IF Now(e, op.o) = Looks(s, k) THEN {} ELSE {"look"})
  \cup (IF \E x \in DOMAIN w : x # op.o /\ Now(e, x) # w[x].now THEN {"frame"} ELSE {})
Next ==
  /\ l <= Len(Events(h))
  /\ l' = l + 1 /\ h' = h
  /\ LET e == Events(h)[l]
         op == e.op @@ Blank
     IN
     IF dead THEN UNCHANGED <<w, dead>>
     ELSE IF Broken(e) THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"broken"})
     ELSE IF op.op = "cast" THEN w' = Put(op.o, Cast(e, op)) /\ dead' = FALSE
     ELSE IF op.o \notin DOMAIN w \/ w[op.o].pos >= Len(w[op.o].solo)
          THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"~skipped"})
     ELSE /\ Report(h, l, Clauses(e, op))
          /\ w' = [x \in DOMAIN w |-> [w[x] EXCEPT !.now = Now(e, x), !.pos = IF x = op.o THEN @ + 1 ELSE @]]
          /\ dead' = FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
