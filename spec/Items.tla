------------------------------- MODULE Items -------------------------------
(* The values users put into the collections, and the results of calls.      *)
(*   item   [t, v, p]   t = "n" number, "s" text, "o" any other object,      *)
(*                      "u" an object of the user's own, with its own ==,    *)
(*                      whose p says which object it is,                     *)
(*                      "none" None, "extra" one of the library's own types  *)
(*                      v = the value (for numbers, quarter units in limbs,  *)
(*                      ordered lexicographically as the numbers are, and    *)
(*                      one huge limb for an infinity; code points for       *)
(*                      text), p = its exact type                            *)
(*   result [tag, s, n, l]                                                   *)
EXTENDS Integers, Sequences

(* Python's ==: 1, 1.0 and True are equal, but 1 and "1" are not *)
Eq(a, b) == a.t = b.t /\ a.v = b.v

(* < on two values of the same ordered kind *)
LexLt(u, v) ==
  LET m == IF Len(u) < Len(v) THEN Len(u) ELSE Len(v)
      D == { i \in 1..m : u[i] # v[i] }
  IN IF D = {} THEN Len(u) < Len(v)
     ELSE LET d == CHOOSE i \in D : \A j \in D : i <= j IN u[d] < v[d]
Comparable(a, b) == a.t = b.t /\ a.t \in {"n", "s"}
Lt(a, b) == LexLt(a.v, b.v)
Le(a, b) == a.v = b.v \/ LexLt(a.v, b.v)

IsNum(x) == x.t = "n"
IsText(x) == x.t = "s"

(* text is stored with every line break written as the two characters \n *)
RECURSIVE Escape(_)
Escape(v) == IF v = <<>> THEN <<>>
             ELSE (IF Head(v) = 10 THEN <<92, 110>> ELSE <<Head(v)>>) \o Escape(Tail(v))
Stored(x) == IF x.t = "s" /\ \E i \in DOMAIN x.v : x.v[i] = 10
             THEN [x EXCEPT !.v = Escape(x.v)] ELSE x
StoredAll(xs) == [i \in DOMAIN xs |-> Stored(xs[i])]

Num(n) == [t |-> "n", v |-> <<(4 * n) \div 1048576, (4 * n) % 1048576>>, p |-> "int"]
Flt(n) == [t |-> "n", v |-> <<(4 * n) \div 1048576, (4 * n) % 1048576>>, p |-> "float"]
Infinite(x) == x.t = "n" /\ Len(x.v) = 1
PosInf == [t |-> "n", v |-> <<1073741825>>, p |-> "float"]
NegInf == [t |-> "n", v |-> <<-1073741825>>, p |-> "float"]
NoItem == [t |-> "none", v |-> <<>>, p |-> "NoneType"]
ExtraItem == [t |-> "extra", v |-> <<>>, p |-> "Node"]
NoValue(x) == x.t \in {"none", "extra"}
BadItemErr(x) == IF x.t = "none" THEN "ValueError" ELSE "TypeError"

RNone == [tag |-> "none", s |-> "", n |-> 0, l |-> <<>>]
RExc(e) == [tag |-> "exc", s |-> e, n |-> 0, l |-> <<>>]
RBool(b) == [tag |-> "bool", s |-> "", n |-> IF b THEN 1 ELSE 0, l |-> <<>>]
RInt(n) == [tag |-> "int", s |-> "", n |-> n, l |-> <<>>]
RVal(x) == [tag |-> "val", s |-> "", n |-> 0, l |-> <<x>>]
RList(xs) == [tag |-> "list", s |-> "", n |-> Len(xs), l |-> xs]
RObj(kind, xs) == [tag |-> "obj", s |-> kind, n |-> Len(xs), l |-> xs]
RPair(kind, xs, ys) == [tag |-> "pair", s |-> kind, n |-> Len(xs), l |-> xs \o ys]

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Count(s, x) == LET D == { i \in DOMAIN s : Eq(s[i], x) } IN D
=============================================================================
