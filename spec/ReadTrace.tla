------------------------------ MODULE ReadTrace -----------------------------
(* Recorded readings of real structures. Clauses:                            *)
(*   next    an iteration does not yield the item at its own place           *)
(*   list    the structure as a list is not what it was                      *)
(*   answer  a question got another answer than before                       *)
(*   moved   reading changed what the structure consists of                  *)
EXTENDS ReadWorld, Trace
VARIABLES h, l, w, dead
vars == <<h, l, w, dead>>
Blank == [op |-> "", kind |-> "", n |-> 0, c |-> 0, q |-> 0]
Nothing == [seq |-> <<>>, cur |-> Fresh(1..9), ans |-> <<>>, is |-> ""]
Init == h \in DOMAIN Hist /\ l = 1 /\ w = Nothing /\ dead = FALSE
Is(e) == IF "o" \in DOMAIN e.post THEN e.post["o"].is ELSE w.is
Clauses(e, op) ==
  LET res == Res(e) IN
  (CASE op.op = "next" -> IF res = Step(w.seq, w.cur, op.c).res THEN {} ELSE {"next"}
     [] op.op = "list" -> IF res.l = w.seq THEN {} ELSE {"list"}
     [] op.op = "asks" -> IF w.ans = <<>> \/ res.l = w.ans THEN {} ELSE {"answer"}
     [] OTHER -> {})
  \cup (IF op.op # "new" /\ Is(e) # w.is THEN {"moved"} ELSE {})
After(e, op) ==
  LET res == Res(e) IN
  CASE op.op = "new" -> [Nothing EXCEPT !.seq = res.l, !.is = Is(e)]
    [] op.op = "open" -> [w EXCEPT !.cur = Open(w.cur, op.c)]
    [] op.op = "next" -> [w EXCEPT !.cur = Step(w.seq, w.cur, op.c).cur]
    [] op.op = "asks" -> [w EXCEPT !.ans = res.l]
    [] OTHER -> w
Next ==
  /\ l <= Len(Events(h))
  /\ l' = l + 1 /\ h' = h
  /\ LET e == Events(h)[l]
         op == e.op @@ Blank
     IN
     IF dead THEN UNCHANGED <<w, dead>>
     ELSE IF Broken(e) THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"broken"})
     ELSE IF op.op = "next" /\ w.cur[op.c] = Closed
          THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"~skipped"})
     ELSE Report(h, l, Clauses(e, op)) /\ w' = After(e, op) /\ dead' = FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
