---------------------------- MODULE SuffixTrace -----------------------------
(* Recorded questions to real suffix tries. The text of each is known from   *)
(* the call that made it. Clauses: the kind of question (find, shape, array, *)
(* repeat, lca), and reject for a wrong, missing or needless refusal.        *)
EXTENDS SuffixWorld, Trace
VARIABLES h, l, w, dead
vars == <<h, l, w, dead>>
Init == h \in DOMAIN Hist /\ l = 1 /\ w = [o \in {} |-> 0] /\ dead = FALSE
Blank == [op |-> "", o |-> "a", x |-> NoItem, y |-> NoItem]
Name(op) == CASE op.op \in {"has", "count"} -> "find" [] op.op = "array" -> "array"
              [] op.op \in {"lrs", "lcs"} -> "repeat" [] op.op = "lca" -> "lca" [] OTHER -> "shape"
Next ==
  /\ l <= Len(Events(h))
  /\ l' = l + 1 /\ h' = h
  /\ LET e == Events(h)[l]
         op == e.op @@ Blank
         res == Res(e)
     IN
     IF dead THEN UNCHANGED <<w, dead>>
     ELSE IF op.op = "new" THEN
       /\ dead' = FALSE
       /\ IF NewErr(op.x) # ""
          THEN /\ Report(h, l, IF Broken(e) \/ res # RExc(NewErr(op.x)) THEN {"reject"} ELSE {})
               /\ w' = w
          ELSE /\ Report(h, l, IF Broken(e) \/ res # RNone THEN {"reject"} ELSE {})
               /\ w' = IF Broken(e) \/ res # RNone THEN [o \in DOMAIN w \ {op.o} |-> w[o]] ELSE (op.o :> Clean(op.x.v)) @@ w
     ELSE IF op.o \notin DOMAIN w
          THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"~skipped"})
     ELSE IF Broken(e) THEN dead' = TRUE /\ w' = w /\ Report(h, l, {Name(op)})
     ELSE /\ dead' = FALSE /\ w' = w
          /\ LET t == w[op.o]
                 want == Ans(t, op)
             IN Report(h, l, IF Agrees(t, res, want) /\ Warn(e) = "" THEN {} ELSE {Name(op)})
Spec == Init /\ [][Next]_vars
=============================================================================
