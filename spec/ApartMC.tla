------------------------------- MODULE ApartMC ------------------------------
(* All schedules of two structures of any kinds that make Steps calls each   *)
(* (the first one builds the structure).                                     *)
EXTENDS ApartWorld, Json, TLC
CONSTANTS Kinds, Steps, Same
K == <<"ll", "dll", "cll", "skip", "stack", "queue", "deque", "pq", "tree", "bin",
       "bst", "avl", "rb", "splay", "treap", "min", "max", "trie", "radix", "suffix">>
VARIABLES pos, path, kinds
vars == <<pos, path, kinds>>
Blank == [op |-> "", o |-> "", kind |-> "", n |-> 0]
S == {"a", "b"}
Init == /\ pos = [o \in S |-> 0]
        /\ kinds \in { f \in [S -> 1..Len(Kinds)] : IF Same THEN f["a"] = f["b"] ELSE f["a"] < f["b"] }
        /\ path = << [Blank EXCEPT !.op = "cast", !.o = "a", !.kind = Kinds[kinds["a"]], !.n = 1],
                     [Blank EXCEPT !.op = "cast", !.o = "b", !.kind = Kinds[kinds["b"]], !.n = 2] >>
Next == \E o \in S : /\ pos[o] < Steps /\ pos' = [pos EXCEPT ![o] = @ + 1]
                     /\ path' = Append(path, [Blank EXCEPT !.op = "step", !.o = o])
                     /\ kinds' = kinds
Spec == Init /\ [][Next]_vars
Done == \A o \in S : pos[o] = Steps
EmitState == PrintT("STATE " \o ToJson([pre |-> path, loops |-> {}, steps |-> {},
                    tails |-> IF Done THEN {<<>>} ELSE {}]))
(* with answers that depend on the own calls only, a schedule and the one     *)
(* with any two neighbouring calls on different structures exchanged agree    *)
Solo(o) == [i \in 1..Steps |-> [r |-> <<kinds[o], i>>, s |-> ToString(<<kinds[o], i>>)]]
RECURSIVE Run(_, _)
Run(p, i) == IF i > Len(p) THEN [o \in S |-> 0]
             ELSE LET q == Run(p, i + 1) IN [q EXCEPT ![p[i].o] = @ + 1]
Swap(p, i) == [j \in DOMAIN p |-> IF j = i THEN p[i + 1] ELSE IF j = i + 1 THEN p[i] ELSE p[j]]
Commute == LET p == SubSeq(path, 3, Len(path)) IN
             \A i \in 1..(Len(p) - 1) :
               \A o \in S : Looks(Solo(o), Run(Swap(p, i), 1)[o]) = Looks(Solo(o), Run(p, 1)[o])
=============================================================================
