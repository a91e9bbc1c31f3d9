------------------------------- MODULE ReadMC -------------------------------
(* All interleavings of Cursors iterations over structures of every kind     *)
(* with 0..Size items. After each of them the history asks every question    *)
(* the kind answers (twice), and then lets all iterations run to their end.  *)
EXTENDS ReadWorld, Json, TLC
CONSTANTS Kinds, Size, Cursors
VARIABLES kind, n, cur, path
vars == <<kind, n, cur, path>>
Blank == [op |-> "", kind |-> "", n |-> 0, c |-> 0, q |-> 0]
Op(f) == [Blank EXCEPT !.op = f]
C == 1..Cursors
Seq0 == [i \in 1..n |-> ToString(i)]
OpenOp(c) == [Op("open") EXCEPT !.c = c]
NextOp(c) == [Op("next") EXCEPT !.c = c]
Init == /\ kind \in Kinds /\ n \in 0..Size /\ cur = Fresh(C)
        /\ path = << [Op("new") EXCEPT !.kind = kind, !.n = n] >>
Next == /\ UNCHANGED <<kind, n>>
        /\ \E c \in C :
             \/ /\ cur[c] = Closed /\ cur' = Open(cur, c) /\ path' = Append(path, OpenOp(c))
             \/ /\ cur[c] # Closed /\ cur[c] <= n
                /\ cur' = Step(Seq0, cur, c).cur /\ path' = Append(path, NextOp(c))
Spec == Init /\ [][Next]_vars
View == <<kind, n, cur>>
Alive == { c \in C : cur[c] # Closed }
RECURSIVE Drain(_)
Drain(S) == IF S = {} THEN <<>>
            ELSE LET c == CHOOSE x \in S : \A y \in S : y <= x IN <<NextOp(c), NextOp(c), NextOp(c)>> \o Drain(S \ {c})
EmitState == PrintT("STATE " \o ToJson([pre |-> path, loops |-> {}, steps |-> {},
   tails |-> { <<Op("asks")>> \o Drain(Alive) \o <<Op("asks")>> \o Drain(Alive) \o <<Op("list")>> }]))
(* iterations do not see one another: each has yielded a prefix, whatever     *)
(* the others did, and ends exactly after the last item                       *)
Own == \A c \in Alive : /\ cur[c] \in 0..(n + 1)
                        /\ LET r == Step(Seq0, cur, c) IN
                             /\ (r.res = REnd) = (cur[c] >= n)
                             /\ \A d \in C \ {c} : r.cur[d] = cur[d]
=============================================================================
