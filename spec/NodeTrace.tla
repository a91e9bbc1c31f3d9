----------------------------- MODULE NodeTrace ------------------------------
(* Recorded calls on tree nodes and trees. Clauses: res (answer of a node),  *)
(* shape (answer of a tree), link (nodes or roots are not as required after  *)
(* a call), built (a tree made from a folder or nested list), reject, warn,  *)
(* reject_state.                                                             *)
EXTENDS NodeWorld, Trace
VARIABLES h, l, w, dead
vars == <<h, l, w, dead>>
Init == h \in DOMAIN Hist /\ l = 1 /\ w = [o \in {} |-> 0] /\ dead = FALSE
NoDir == [n |-> NoItem, d |-> FALSE, k |-> <<>>]
NoNest == [f |-> "v", x |-> NoItem, k |-> <<>>]
Blank == [op |-> "", o |-> "A", a |-> "", as |-> <<>>, x |-> NoItem, f |-> "", dir |-> NoDir, n |-> NoNest]
Seen(e, v) == LET S == (DOMAIN v \cup DOMAIN e.post) \ Gone(e)
              IN [o \in S |-> IF o \in DOMAIN e.post THEN e.post[o] ELSE v[o]]
Names(op) == ({op.o} \cup {op.a} \cup { op.as[i] : i \in DOMAIN op.as }) \ {""}
(* nodes nothing refers to may disappear from the record *)
Same(g, v) == \A o \in DOMAIN g : o \in DOMAIN v => v[o] = g[o]
Clauses(e, op, x, seen) ==
  LET res == Res(e)
      built == op.o \in DOMAIN seen /\ x.m # ""
  IN (IF res = x.res THEN {} ELSE IF Rejected(res) \/ Rejected(x.res) THEN {"reject"}
      ELSE IF op.op \in TreeOps THEN {"shape"} ELSE {"res"})
     \cup (IF Warn(e) = x.warn THEN {} ELSE {"warn"})
     \cup (IF Rejected(x.res) THEN (IF Same(x.s, seen) THEN {} ELSE {"reject_state"})
           ELSE IF x.m = "" THEN (IF Same(x.s, seen) /\ (op.op \notin {"tree", "node"} \/ op.o \in DOMAIN seen) THEN {} ELSE {"link"})
           ELSE IF ~built \/ RootOf(seen, op.o) = "" THEN {"built"}
           ELSE (IF Same([o \in DOMAIN w \ {op.o} |-> w[o]], seen) THEN {} ELSE {"link"})
                \cup (IF x.t = (IF x.m = "g" THEN Unf(seen, RootOf(seen, op.o)) ELSE Bin(seen, RootOf(seen, op.o)))
                      THEN {} ELSE {"built"}))
Next ==
  /\ l <= Len(Events(h))
  /\ l' = l + 1 /\ h' = h
  /\ LET e == Events(h)[l]
         op == e.op @@ Blank
     IN
     IF dead THEN UNCHANGED <<w, dead>>
     ELSE IF Broken(e) THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"broken"})
     ELSE IF op.op \notin {"node", "tree", "path", "parse"} /\ \E n \in Names(op) : n \notin DOMAIN w
          THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"~skipped"})
     ELSE LET seen == Seen(e, w)
              x == Judge(w, op)
          IN Report(h, l, Clauses(e, op, x, seen)) /\ w' = seen /\ dead' = FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
