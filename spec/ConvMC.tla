------------------------------- MODULE ConvMC -------------------------------
(* Structures of all kinds, made into structures of all kinds, and up to     *)
(* Most further changes and conversions of either.                           *)
EXTENDS ConvWorld, Json, TLC
CONSTANTS Most, Contents
Vals == { Num(1), Num(2), Num(3), Flt(2) }
VARIABLES w, n, path
vars == <<w, n, path>>
Blank == [op |-> "", o |-> "", a |-> "", k |-> "", x |-> NoItem, xs |-> <<>>, f |-> ""]
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF Lt(Head(s), x) THEN <<Head(s)>> \o Insert(Tail(s), x) ELSE <<x>> \o s
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(Sort(Tail(s)), Head(s))
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE LET t == Uniq(Tail(s)) IN IF Has(t, Head(s)) THEN t ELSE <<Head(s)>> \o t
Canon(k, s) == CASE k \in Sets -> Sort(Uniq(s)) [] k \in Bags -> Sort(s) [] OTHER -> s
All == << <<>>, <<Num(1)>>, <<Num(2), Num(1), Num(3)>>, <<Num(1), Num(2)>>, <<Flt(2), Num(1), Num(2)>>,
          <<Num(3), Num(2), Num(1), Num(3)>>, <<Num(1), Num(3), Num(2), Num(4), Num(5)>> >>
Make(k, s) == [Blank EXCEPT !.op = "make", !.o = "a", !.k = k, !.xs = s]
Init == /\ n = 0
        /\ \E k \in Targets \cup Sources \cup Mute, i \in Contents :
             w = [o \in {"a"} |-> [k |-> k, s |-> Canon(k, All[i])]] /\ path = << Make(k, All[i]) >>
Conv(o, a, k) ==
  /\ path' = Append(path, [Blank EXCEPT !.op = "conv", !.o = o, !.a = a, !.k = k])
  /\ w' = IF Convertible(k, w[a].k, w[a].s)
          THEN [p \in DOMAIN w \cup {o} |-> IF p = o THEN [k |-> k, s |-> Canon(k, w[a].s)] ELSE w[p]] ELSE w
Change(o, op, s) == /\ path' = Append(path, op) /\ w' = [w EXCEPT ![o].s = Canon(w[o].k, s)]
First == n = 0 /\ \E k \in Targets : Conv("b", "a", k)
Then == /\ n \in 1..Most /\ "b" \in DOMAIN w
        /\ \E o \in DOMAIN w :
             \/ w[o].k \in Targets \cup {"tree"} /\ \E x \in {Num(9), Num(0)} :
                  Change(o, [Blank EXCEPT !.op = "put", !.o = o, !.x = x], With(w[o].s, x))
             \/ w[o].k \in Targets /\ \E x \in {Num(1), Num(2)} :
                  Change(o, [Blank EXCEPT !.op = "cut", !.o = o, !.x = x], Less(w[o].k, w[o].s, x))
             \/ w[o].k \in Targets /\ Change(o, [Blank EXCEPT !.op = "empty", !.o = o], <<>>)
             \/ \E a \in DOMAIN w : w[o].k = w[a].k /\ w[o].k \in Seqs /\ Len(w[a].s) < 9
                  /\ Change(o, [Blank EXCEPT !.op = "join", !.o = o, !.a = a], w[o].s \o w[a].s)
Next == n' = n + 1 /\ (First \/ Then)
Spec == Init /\ [][Next]_vars
EmitState == PrintT("STATE " \o ToJson([pre |-> path, loops |-> {}, steps |-> {},
                    tails |-> IF n = Most + 1 \/ (n = 1 /\ "b" \notin DOMAIN w) THEN {<<>>} ELSE {}]))
(* a conversion is faithful: lists repeat their source, sets and bags what it  *)
(* holds; converting again gives the same; and what was made holds what it may *)
Faithful == \A o \in DOMAIN w : \A k \in Targets :
  LET s == w[o].s t == Canon(k, s) IN
  Convertible(k, w[o].k, s) => /\ Holds(k, s, t) /\ SameSet(s, t) /\ Canon(k, t) = t
                               /\ (k \notin Sets => SameBag(s, t)) /\ (k \in Seqs => t = s)
                               /\ (k \in Sets => Len(t) = Cardinality({ x.v : x \in { s[i] : i \in DOMAIN s } }))
(* the values of a heap in order are a heap, those of the other kind are not *)
Heaps == \A o \in DOMAIN w : LET t == Canon("min", w[o].s) IN
  w[o].k \notin Mute => /\ InOrder("min", t, <<>>) /\ InOrder("max", Reverse(t), <<>>)
                        /\ (Len(t) > 1 /\ ~Eq(t[1], t[Len(t)]) => ~InOrder("max", t, <<>>))
Apart == \A o \in DOMAIN w : w[o].k \in Targets => Holds(w[o].k, w[o].s, w[o].s)
=============================================================================
