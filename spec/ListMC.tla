------------------------------ MODULE ListMC -------------------------------
(* Exhaustive exploration of ListWorld for one main object "a" of kind Kind  *)
(* and one peer "b", with every operation and every invalid argument class.  *)
EXTENDS ListWorld, Json
CONSTANTS Kind, MaxLen, PeerLen, Mode
VARIABLES w, path

X == << Num(1), Flt(1), [t |-> "s", v |-> <<97, 10>>, p |-> "str"] >>
Vals == IF Mode = "wide" THEN {X[1], X[2], X[3]} ELSE {X[1], X[3]}
Blank == [op |-> "", o |-> "a", a |-> "", b |-> "", c |-> "", ki |-> Kind, ti |-> "int", i |-> 0,
          j |-> 0, k |-> 0, x |-> NoItem, xs |-> <<>>, f |-> ""]
Op(n) == [Blank EXCEPT !.op = n]
Ix(n) == (-(n + 2))..(n + 2)
BadTi == {"bool", "float", "str", "none", "slice"}

Mutators(n) ==
     { [Op(f) EXCEPT !.x = x] : f \in {"add_front", "add_end"}, x \in Vals \cup {NoItem, ExtraItem} }
\cup { [Op("insert") EXCEPT !.i = i, !.x = x] : i \in Ix(n), x \in Vals }
\cup { [Op("set") EXCEPT !.i = i, !.x = x] : i \in Ix(n), x \in Vals }
\cup { [Op(f) EXCEPT !.x = x] : f \in {"insert", "set"}, x \in IF n > 0 THEN {NoItem, ExtraItem} ELSE {} }
\cup { [Op(f) EXCEPT !.ti = t, !.x = X[1]] : f \in {"insert", "set", "del", "split"}, t \in BadTi }
\cup { [Op("del") EXCEPT !.i = i] : i \in Ix(n) }
\cup { [Op("remove") EXCEPT !.x = x, !.f = f] : x \in Vals, f \in {"all", "first"} }
\cup { [Op("remove") EXCEPT !.x = x, !.f = "all"] : x \in {NoItem, ExtraItem} }
\cup { [Op("remove") EXCEPT !.x = X[1], !.f = "bad"], Op("remove_front"), Op("remove_end"), Op("clear") }
\cup { [Op(f) EXCEPT !.i = i, !.f = "in"] : f \in {"rotate_left", "rotate_right"}, i \in -1..(2 * n + 1) }
\cup { [Op("extend") EXCEPT !.a = "b"], [Op("extend") EXCEPT !.a = "a"], [Op("extend") EXCEPT !.f = "plain"] }
Derivers(n) ==      \* their results are checked and then dropped again
     { [Op("split") EXCEPT !.i = i, !.b = "d", !.c = "e"] : i \in Ix(n) }
\cup { [Op(f) EXCEPT !.i = i, !.f = "out", !.b = "d"] : f \in {"rotate_left", "rotate_right"}, i \in -1..(2 * n + 1) }
\cup { [Op(f) EXCEPT !.b = "d"] : f \in {"reverse", "copy"} }
\cup { [Op("get") EXCEPT !.ti = "slice", !.i = i, !.j = j, !.k = k, !.b = "d"] :
         i \in {Omitted, -n - 1, -1, 0, 1, n}, j \in {Omitted, -2, 0, n - 1, n + 1},
         k \in {Omitted, 1, 2, -1, -2, 0} }
\cup { [Op("new") EXCEPT !.o = "d", !.ki = k, !.a = "a", !.f = "obj"] : k \in {"LL", "DLL", "CLL"} }
Asks(n) ==
     { [Op("get") EXCEPT !.i = i] : i \in Ix(n) }
\cup { [Op("get") EXCEPT !.ti = t] : t \in BadTi \ {"slice"} }
\cup { [Op(f) EXCEPT !.x = x] : f \in {"contains", "count"}, x \in Vals \cup {Num(9)} }
\cup { Op(f) : f \in {"len", "is_empty", "to_list", "iter"} }
\cup { [Op(f) EXCEPT !.a = "b"] : f \in CmpOps }
\cup { [Op(f) EXCEPT !.f = "plain"] : f \in CmpOps }
\cup { [Op(f) EXCEPT !.ti = t, !.f = "in"] : f \in {"rotate_left", "rotate_right"}, t \in {"float", "bool", "none"} }
\cup { [Op(f) EXCEPT !.f = "bad"] : f \in {"rotate_left", "rotate_right"} }
\cup { [Op("new") EXCEPT !.o = "d", !.xs = <<X[1], x>>] : x \in {NoItem, ExtraItem} }
\cup { [Op("new") EXCEPT !.o = "d", !.f = "noniter"] }
PeerOps(n) ==
     { [Op("add_end") EXCEPT !.o = "b", !.x = x] : x \in Vals }
\cup { [Op("remove_front") EXCEPT !.o = "b"] }
\cup { [Op("extend") EXCEPT !.o = "b", !.a = "a"] }

Live == {"a", "b"}
Small(v) == Len(v["a"].s) <= MaxLen /\ Len(v["b"].s) <= PeerLen

Init == /\ w = [o \in Live |-> [kind |-> Kind, s |-> <<>>]]
        /\ path = << [Op("new") EXCEPT !.o = "a"], [Op("new") EXCEPT !.o = "b"] >>
All == LET n == Len(w["a"].s) IN Mutators(n) \cup Derivers(n) \cup Asks(n) \cup PeerOps(n)
(* A derived object lives for the length of one transition: the histories    *)
(* printed for it go on by changing it and its source (IsolationTail).       *)
Next == \E op \in All :
          LET r == Apply(w, op)
              rest == [o \in Live |-> r.w[o]]
          IN /\ Small(rest)
             /\ w' = rest
             /\ path' = Append(path, op)
Spec == Init /\ [][Next]_<<w, path>>
View == w

(* One line per state: how to get there, which operations keep it, which     *)
(* leave it, and which derive new objects (to be followed by changes to      *)
(* either side).                                                             *)
Rest(r) == [o \in Live |-> r.w[o]]
Isolating(n) ==
     { [Op("split") EXCEPT !.i = i, !.b = "d", !.c = "e"] : i \in 0..n }
\cup { [Op(f) EXCEPT !.i = i, !.f = "out", !.b = "d"] : f \in {"rotate_left", "rotate_right"}, i \in {0, 1} }
\cup { [Op(f) EXCEPT !.b = "d"] : f \in {"reverse", "copy"} }
\cup (IF Kind = "CLL" THEN {} ELSE
      { [Op("get") EXCEPT !.ti = "slice", !.i = Omitted, !.j = Omitted, !.k = k, !.b = "d"] : k \in {Omitted, -1} })
\cup { [Op("new") EXCEPT !.o = "d", !.a = "a", !.f = "obj"] }
\cup { [Op("extend") EXCEPT !.o = "b", !.a = "a"], [Op("extend") EXCEPT !.a = "b"] }
Twins(op) == {"d", "e", "b"} \cap {op.o, op.a, op.b, op.c}
Tail1 == << [Op("add_end") EXCEPT !.x = Num(7)], [Op("set") EXCEPT !.x = Num(8)],
            [Op("add_front") EXCEPT !.x = Num(6)], Op("remove_front"), Op("remove_end"),
            [Op("del") EXCEPT !.i = 0], [Op("insert") EXCEPT !.x = Num(5)] >>
TailFor(o) == [i \in DOMAIN Tail1 |-> [Tail1[i] EXCEPT !.o = o]]
Tails(op) == { TailFor("a") \o TailFor(o) : o \in Twins(op) } \cup { TailFor(o) \o TailFor("a") : o \in Twins(op) }
(* removals that the user's own comparison ends after some steps             *)
Cut(n) == { [Op("remove") EXCEPT !.x = x, !.f = "boom", !.i = i] : x \in Vals, i \in 0..n }
EmitState ==
  LET loops == { op \in All : Rest(Apply(w, op)) = w }
      steps == { op \in All \ loops : Small(Rest(Apply(w, op))) }
  IN PrintT("STATE " \o ToJson([pre |-> path, loops |-> loops, steps |-> steps,
        tails |-> UNION { { <<op>> \o t : t \in Tails(op) } : op \in Isolating(Len(w["a"].s)) }
                  \cup { <<op>> \o TailFor("a") : op \in Cut(Len(w["a"].s)) }]))

(* ---- laws every state must satisfy, stated without Apply's case analysis *)
S(o) == w[o].s
Do(op) == Apply(w, op)
Laws ==
  LET s == S("a") n == Len(s) IN
  /\ Reverse(Reverse(s)) = s
  /\ \A d \in 0..(2 * n + 1) :
        /\ RotR(RotL(s, d), d) = s
        /\ n > 0 => RotL(s, d) = RotL(s, d % n)
        /\ n > 0 => \A i \in 1..n : RotL(s, d)[i] = s[((i - 1 + d) % n) + 1]
  /\ \A i \in 0..n : LET u == SubSeq(s, 1, i) v == SubSeq(s, i + 1, n) IN u \o v = s
  /\ \A i \in 0..n, x \in Vals : RemoveAt(InsertAt(s, i, x), i) = s
  /\ Slice(s, Omitted, Omitted, -1) = Reverse(s)
  /\ \A i, j \in 0..n : Slice(s, i, j, Omitted) = SubSeq(s, i + 1, j)
  /\ \A x \in Vals : (Do([Op("contains") EXCEPT !.x = x]).res.n = 1)
                       <=> (Do([Op("count") EXCEPT !.x = x]).res.n > 0)
  /\ \A x \in Vals : LET t == Do([Op("remove") EXCEPT !.x = x, !.f = "all"]).w["a"].s IN
        /\ Count(t, x) = {}
        /\ Len(t) = n - Do([Op("count") EXCEPT !.x = x]).res.n
  /\ LET t == S("b") R(f) == Cmp(f, s, t) Q(f) == Cmp(f, t, s) IN
        /\ R("eq").n + R("ne").n = 1
        /\ R("lt") = Q("gt") /\ R("le") = Q("ge") /\ R("eq") = Q("eq")
        /\ R("lt").tag = "bool" => /\ R("lt").n <= R("le").n
                                   /\ R("lt").n + R("eq").n <= 1
                                   /\ R("eq").n = 1 => (R("le").n = 1 /\ R("ge").n = 1)
(* a refused operation, and a query, change nothing; nothing but the target  *)
(* of an operation changes *)
Frame == \A op \in All : LET r == Do(op) IN
  /\ (Rejected(r.res) \/ (op.op \in Queries /\ op.ti # "slice")) => r.w = w
  /\ \A o \in Live \ {op.o, op.b, op.c} : r.w[o] = w[o]
=============================================================================
