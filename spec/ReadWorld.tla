------------------------------ MODULE ReadWorld -----------------------------
(* A structure that is only read. Reading means opening iterations, moving   *)
(* any of the open ones one step, and asking questions, in any order. What a *)
(* structure holds is an unknown but constant sequence; each iteration has   *)
(* its own place in it; each question has an unknown but constant answer.    *)
(*   world  [seq |-> the sequence, cur |-> [iteration -> place, -1 if closed]]*)
EXTENDS Items, FiniteSets
Closed == -1
Fresh(C) == [c \in C |-> Closed]
(* the next item of iteration c, or the end *)
RText(s) == [tag |-> "text", s |-> s, n |-> 0, l |-> <<>>]
REnd == [tag |-> "end", s |-> "", n |-> 0, l |-> <<>>]
Step(seq, cur, c) ==
  IF cur[c] < Len(seq) THEN [res |-> RText(seq[cur[c] + 1]), cur |-> [cur EXCEPT ![c] = @ + 1]]
  ELSE [res |-> REnd, cur |-> [cur EXCEPT ![c] = Len(seq) + 1]]
Open(cur, c) == [cur EXCEPT ![c] = 0]
=============================================================================
