----------------------------- MODULE TrieTrace ------------------------------
(* Recorded calls on real tries. Clauses:                                    *)
(*   words   the marked nodes do not spell the required words                *)
(*   nodes   not the required nodes                                          *)
(*   sound   empty label, siblings with a common first character, a label    *)
(*           filed under another character, wrong parent                     *)
(*   tight   (radix) more nodes than words and partings, with no removal     *)
(*   res, shape, reject, warn, reject_state, frame, len as elsewhere         *)
EXTENDS TrieWorld, Trace
VARIABLES h, l, w, ever, dead      \* ever: tries something was removed from
vars == <<h, l, w, ever, dead>>
Init == h \in DOMAIN Hist /\ l = 1 /\ w = [o \in {} |-> 0] /\ ever = {} /\ dead = FALSE
Blank == [op |-> "", o |-> "a", x |-> NoItem]
Seen(e, v) == LET S == (DOMAIN v \cup DOMAIN e.post) \ Gone(e)
              IN [o \in S |-> IF o \in DOMAIN e.post THEN e.post[o].k ELSE v[o]]
View(k) == [w |-> WordsOf(k, <<>>), n |-> PathsOf(k, <<>>)]
Clauses(e, op, b, x, seen) ==
  LET res == Res(e)
      rej == Rejected(x.res)
      known == op.o \in DOMAIN w
      mine == op.o \in DOMAIN seen
      k == IF mine THEN seen[op.o] ELSE <<>>
      p == op.o \in DOMAIN e.post
      v == View(k)
      moved == ~mine \/ (known /\ k # w[op.o])
  IN (IF Agrees(res, x.res) THEN {} ELSE IF rej \/ Rejected(res) THEN {"reject"}
      ELSE IF op.op \in {"height", "depth", "leaves", "iter", "to_list", "per_level", "len", "is_empty"} THEN {"shape"} ELSE {"res"})
     \cup (IF Warn(e) = x.warn THEN {} ELSE {"warn"})
     \cup (IF \E o \in DOMAIN w : o # op.o /\ (o \notin DOMAIN seen \/ seen[o] # w[o]) THEN {"frame"} ELSE {})
     \cup (IF op.op \in Asks /\ ~rej /\ moved THEN {"frame"} ELSE {})
     \cup (IF rej /\ known /\ moved THEN {"reject_state"} ELSE {})
     \cup (IF p \/ op.op \notin Asks
           THEN (IF v.w = x.t.w THEN {} ELSE {"words"}) \cup (IF v.n = x.t.n THEN {} ELSE {"nodes"}) ELSE {})
     \cup (IF p /\ ~(Sound(k) /\ e.post[op.o].ok) THEN {"sound"} ELSE {})
     \cup (IF p /\ (e.post[op.o].len # NCount(k) + 1 \/ NCount(k) # Cardinality(v.n)) THEN {"len"} ELSE {})
     \cup (IF p /\ Kind = "radix" /\ op.o \notin ever /\ op.op # "remove" /\ ~Tight(v) THEN {"tight"} ELSE {})
Next ==
  /\ l <= Len(Events(h))
  /\ l' = l + 1 /\ h' = h
  /\ LET e == Events(h)[l]
         op == e.op @@ Blank
     IN
     IF dead THEN UNCHANGED <<w, ever, dead>>
     ELSE IF Broken(e) THEN dead' = TRUE /\ UNCHANGED <<w, ever>> /\ Report(h, l, {"broken"})
     ELSE IF op.op # "new" /\ op.o \notin DOMAIN w
          THEN dead' = TRUE /\ UNCHANGED <<w, ever>> /\ Report(h, l, {"~skipped"})
     ELSE LET seen == Seen(e, w)
              k == IF op.o \in DOMAIN w THEN w[op.o] ELSE <<>>
              b == View(k)
              x == Judge(b, k, op)
          IN /\ Report(h, l, Clauses(e, op, b, x, seen)) /\ w' = seen /\ dead' = FALSE
             /\ ever' = CASE op.op \in {"new", "clear"} -> ever \ {op.o}
                          [] op.op = "remove" /\ x.t # b -> ever \cup {op.o}
                          [] OTHER -> ever
Spec == Init /\ [][Next]_vars
=============================================================================
