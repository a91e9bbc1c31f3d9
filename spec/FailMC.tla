------------------------------- MODULE FailMC -------------------------------
(* Every way to put up to Most failing calls, of every class, between the    *)
(* first Steps calls of a structure of each kind.                            *)
EXTENDS FailWorld, Json, TLC
CONSTANTS Steps, Most, Scripts
Kinds == Lists \cup Stores \cup Numbers \cup Tries \cup {"tree", "bin", "suffix"}
VARIABLES kind, pos, failed, path
vars == <<kind, pos, failed, path>>
Blank == [op |-> "", o |-> "a", kind |-> "", n |-> 0, c |-> ""]
Init == /\ kind \in Kinds /\ pos = 0 /\ failed = 0
        /\ \E n \in 1..Scripts : path = << [Blank EXCEPT !.op = "cast", !.kind = kind, !.n = n] >>
Step == pos < Steps /\ pos' = pos + 1 /\ path' = Append(path, [Blank EXCEPT !.op = "step"]) /\ UNCHANGED <<kind, failed>>
Fail == /\ pos > 0 /\ failed < Most /\ failed' = failed + 1
        /\ \E c \in Fails(kind) : path' = Append(path, [Blank EXCEPT !.op = "fail", !.c = c])
        /\ UNCHANGED <<kind, pos>>
Next == Step \/ Fail
Spec == Init /\ [][Next]_vars
Done == pos = Steps /\ failed = Most
EmitState == PrintT("STATE " \o ToJson([pre |-> path, loops |-> {}, steps |-> {}, tails |-> IF Done THEN {<<>>} ELSE {}]))
(* what a structure looks like after a history is what it looks like after   *)
(* that history without its failing calls; every call that fails has an error *)
Kept(p) == SelectSeq(p, LAMBDA c : c.op # "fail")
Erased == Len(Kept(path)) = pos + 1 /\ Len(path) = pos + 1 + failed
Named == \A c \in Fails(kind) : /\ Errors(kind, c) = {} <=> c \in Idle(kind)
                                /\ ~Right(kind, c, [n |-> 1, s |-> ""])
                                /\ ~Right(kind, c, [n |-> 1, s |-> "Other"])
=============================================================================
