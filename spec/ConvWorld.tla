----------------------------- MODULE ConvWorld ------------------------------
(* Structures made out of one another. The state of a structure is the       *)
(* sequence that iterating over it gives; a structure of any kind may be     *)
(* built from any other that can be iterated over. Lists keep the order they *)
(* are given, search trees and skip lists keep a set of numbers, heaps keep  *)
(* a bag of numbers, in an order of their own.                               *)
EXTENDS Items, FiniteSets
Seqs == {"ll", "dll", "cll"}
Sets == {"skip", "bst", "avl", "rb", "splay", "treap"}
Bags == {"min", "max"}
Targets == Seqs \cup Sets \cup Bags
Sources == {"tree", "bin", "trie", "radix", "suffix"}
Mute == {"stack", "queue", "deque", "pq"}          \* cannot be iterated over

Number(x) == x.t = "n" /\ x.p # "bool"
Has(s, x) == \E i \in DOMAIN s : Eq(s[i], x)
Times(s, x) == Cardinality({ i \in DOMAIN s : Eq(s[i], x) })
Distinct(s) == \A i, j \in DOMAIN s : i # j => ~Eq(s[i], s[j])
Sorted(s) == \A i \in 1..(Len(s) - 1) : Lt(s[i], s[i + 1])
SameSet(s, t) == (\A i \in DOMAIN s : Has(t, s[i])) /\ (\A i \in DOMAIN t : Has(s, t[i]))
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Times(s, s[i]) = Times(t, s[i])

(* t is what iterating over a structure of kind k that was given s may give  *)
Holds(k, s, t) == CASE k \in Seqs -> t = StoredAll(s)
                    [] k \in Sets -> Distinct(t) /\ SameSet(s, t) /\ (k = "skip" => Sorted(t))
                    [] k \in Bags -> SameBag(s, t)
                    [] OTHER -> TRUE
(* its discipline: search trees in order from left to right (o), heaps from  *)
(* parent to child                                                           *)
Before(k, x, y) == IF k = "min" THEN Le(x, y) ELSE Le(y, x)
InOrder(k, t, o) == /\ k \in Sets \ {"skip"} => Sorted(o) /\ SameSet(t, o)
                    /\ k \in Bags => \A i \in 2..Len(t) : Before(k, t[i \div 2], t[i])
Convertible(k, from, s) == from \notin Mute /\ (k \in Seqs \/ \A i \in DOMAIN s : Number(s[i]))
With(s, x) == Append(s, x)
(* s without x: everywhere, and once in bags *)
Less(k, s, x) ==
  IF k \in Bags /\ Has(s, x)
  THEN LET i == CHOOSE j \in DOMAIN s : Eq(s[j], x) IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
  ELSE SelectSeq(s, LAMBDA y : ~Eq(y, Stored(x)))
=============================================================================
