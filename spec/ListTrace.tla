----------------------------- MODULE ListTrace -----------------------------
(* Every recorded call on the real lists must be the one ListWorld!Apply     *)
(* prescribes. Clauses of a failing event:                                   *)
(*   res           result of an accepted call                                *)
(*   reject        an invalid call is not refused with the right error, or a *)
(*                 valid one is refused                                      *)
(*   reject_state  a refused call changed an object                          *)
(*   post          contents of the object operated on (or of a new one)      *)
(*   frame         an object the call has nothing to do with changed         *)
(*   len           len() and the number of items disagree                    *)
(*   links         the chain of nodes disagrees with the contents            *)
(*   back          (DLL) the backward chain is not the forward one reversed  *)
(*   ring          (CLL) the last node does not lead back to the first       *)
(*   cmp           result of a comparison                                    *)
EXTENDS ListWorld, Trace
VARIABLES h, l, w, dead
vars == <<h, l, w, dead>>

Init == h \in DOMAIN Hist /\ l = 1 /\ w = [o \in {} |-> 0] /\ dead = FALSE

Blank == [op |-> "", o |-> "a", a |-> "", b |-> "", c |-> "", ki |-> "LL", ti |-> "int", i |-> 0,
          j |-> 0, k |-> 0, x |-> NoItem, xs |-> <<>>, f |-> ""]
Touched(op) == {op.o, op.b, op.c}
Differs(p, f, s) == f \in DOMAIN p /\ p[f] # s
Struct(p) == (IF p.len # Len(p.it) THEN {"len"} ELSE {})
        \cup (IF p.fend = "err" \/ Differs(p, "fwd", p.it) THEN {"links"} ELSE {})
        \cup (IF p.kind = "DLL" /\ p.bend # "na"
                 /\ (p.bend # "ok" \/ p.fend # "null" \/ Differs(p, "bwd", Reverse(p.it)))
              THEN {"back"} ELSE {})
        \cup (IF p.kind = "CLL" /\ p.fend \notin {"na", "ring"} /\ p.len > 0 THEN {"ring"} ELSE {})

(* the population as observed after event e, when v was observed before it *)
Seen(e, v) == LET D == (DOMAIN v \cup DOMAIN e.post) \ Gone(e)
              IN [o \in D |-> IF o \in DOMAIN e.post
                               THEN [kind |-> e.post[o].kind, s |-> e.post[o].it] ELSE v[o]]

Clauses(e, op, x, seen) ==
  LET rej == Rejected(x.res)
      res == Res(e)
      Odd == { o \in DOMAIN x.w : o \notin DOMAIN seen \/ seen[o] # x.w[o] }
             \cup (DOMAIN seen \ DOMAIN x.w)
  IN (IF res = x.res THEN {}
      ELSE IF rej \/ Rejected(res) THEN {"reject"}
      ELSE IF op.op \in CmpOps THEN {"cmp"} ELSE {"res"})
     \cup (IF Odd = {} THEN {}
           ELSE IF rej THEN {"reject_state"}
           ELSE (IF Odd \cap Touched(op) # {} THEN {"post"} ELSE {})
             \cup (IF Odd \ Touched(op) # {} THEN {"frame"} ELSE {}))
     \cup UNION { Struct(e.post[o]) : o \in DOMAIN e.post }

(* A removal during which the given value's comparison raises (after op.i     *)
(* comparisons): the error reaches the caller, and the list is one that holds *)
(* what it held, without none, some or all of the occurrences of the value.   *)
RECURSIVE Without(_, _, _)
Without(s, t, x) ==
  IF s = <<>> THEN t = <<>>
  ELSE IF t # <<>> /\ Head(s) = Head(t) THEN Without(Tail(s), Tail(t), x)
  ELSE Eq(Head(s), x) /\ Without(Tail(s), t, x)
Same(v, seen, o) == DOMAIN v = DOMAIN seen /\ \A p \in DOMAIN v \ {o} : v[p] = seen[p]
CutClauses(e, op, v, seen) ==
  LET r == Res(e) o == op.o s == v[o].s IN
  (IF r = RExc("Boom") \/ (r = RNone /\ op.i >= Len(s)) THEN {} ELSE {"res"})
  \cup (IF o \in DOMAIN seen /\ seen[o].kind = v[o].kind
           /\ (IF r = RNone THEN seen[o].s = SelectSeq(s, LAMBDA y : ~Eq(y, op.x)) ELSE Without(s, seen[o].s, op.x))
        THEN {} ELSE {"post"})
  \cup (IF Same(v, seen, o) THEN {} ELSE {"frame"})
  \cup UNION { Struct(e.post[p]) : p \in DOMAIN e.post }

Known(op) == op.op = "new" \/ op.o \in DOMAIN w
PeerKnown(op) == op.a = "" \/ op.f = "plain" \/ op.a \in DOMAIN w

Next ==
  /\ l <= Len(Events(h))
  /\ l' = l + 1 /\ h' = h
  /\ LET e == Events(h)[l]
         op == e.op @@ Blank
     IN
     IF dead THEN UNCHANGED <<w, dead>>
     ELSE IF Broken(e) THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"broken"})
     ELSE IF ~Known(op) \/ ~PeerKnown(op) THEN dead' = TRUE /\ w' = w /\ Report(h, l, {"~skipped"})
     ELSE IF op.op = "remove" /\ op.f = "boom"
     THEN LET seen == Seen(e, w)
          IN Report(h, l, CutClauses(e, op, w, seen)) /\ dead' = FALSE /\ w' = seen
     ELSE LET x == Apply(w, op)
              seen == Seen(e, w)
          IN /\ Report(h, l, Clauses(e, op, x, seen))
             /\ dead' = FALSE
             /\ w' = seen
Spec == Init /\ [][Next]_vars
=============================================================================
