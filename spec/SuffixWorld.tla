---------------------------- MODULE SuffixWorld -----------------------------
(* What can be asked about the suffixes of one text. Texts are sequences of  *)
(* code points; "$" (36) is the library's end mark, so it is dropped from    *)
(* the text. The suffix at index i (from 0) is what is left from there on;   *)
(* the empty one has the index Len(text).                                    *)
EXTENDS Items, FiniteSets, SequencesExt, TLC
End == 36
Clean(v) == SelectSeq(v, LAMBDA c : c # End)
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Suf(t, i) == SubSeq(t, i + 1, Len(t))
Occ(t, p) == { i \in 0..(Len(t) - Len(p)) : SubSeq(t, i + 1, i + Len(p)) = p }
Subs(t) == { SubSeq(t, i, j) : <<i, j>> \in { q \in (1..Len(t)) \X (1..Len(t)) : q[1] <= q[2] } }
RECURSIVE Lcp(_, _)
Lcp(a, b) == IF a = <<>> \/ b = <<>> \/ Head(a) # Head(b) THEN <<>> ELSE <<Head(a)>> \o Lcp(Tail(a), Tail(b))

(* the nodes of the compressed trie: where at least two suffixes part, and   *)
(* one leaf per suffix                                                       *)
Branches(t) ==
  LET s == Append(t, End)
  IN { p \in Subs(t) : Cardinality({ s[i + Len(p) + 1] : i \in Occ(t, p) }) >= 2 }
Above(B, s) == { q \in B : Prefix(q, s) }
Rest(B, p, tail) ==     \* the part of p below the last branch in B
  LET A == Above(B, p)
      k == IF A = {} THEN 0 ELSE CHOOSE n \in { Len(q) : q \in A } : \A q \in A : Len(q) <= n
  IN SubSeq(p, k + 1, Len(p)) \o tail
Level(t, B, d) ==       \* labels of the nodes at depth d, in some order
  LET ps == SetToSeq({ p \in B : Cardinality(Above(B, p)) = d })
      ls == SelectSeq([i \in 1..(Len(t) + 1) |-> i - 1], LAMBDA i : Cardinality(Above(B, Suf(t, i))) + 1 = d)
  IN [i \in DOMAIN ps |-> Rest(B \ {ps[i]}, ps[i], <<>>)] \o [i \in DOMAIN ls |-> Rest(B, Suf(t, ls[i]), <<End>>)]
Depth(t, B) == LET S == { Cardinality(Above(B, Suf(t, i))) + 1 : i \in 0..Len(t) }
               IN CHOOSE m \in S : \A x \in S : x <= m

Repeated(t) ==          \* the longest texts that occur at least twice
  LET R == { p \in Subs(t) : Cardinality(Occ(t, p)) >= 2 }
  IN IF R = {} THEN {<<>>} ELSE { p \in R : \A q \in R : Len(q) <= Len(p) }

(* indices of all suffixes in alphabetical order. The empty one counts as    *)
(* the end mark, so it is only placed when no character sorts before that.   *)
Key(t, i) == IF i = Len(t) THEN <<End>> ELSE Suf(t, i)
Placed(t) == \A i \in DOMAIN t : t[i] > End
IsSuffixArray(t, a) ==
  /\ Len(a) = Len(t) + 1 /\ { a[i] : i \in DOMAIN a } = 0..Len(t)
  /\ LET b == IF Placed(t) THEN a ELSE SelectSeq(a, LAMBDA i : i # Len(t))
     IN \A i \in 1..(Len(b) - 1) : LexLt(Key(t, b[i]), Key(t, b[i + 1]))
SuffixArray(t) == SortSeq([i \in 1..(Len(t) + 1) |-> i - 1], LAMBDA i, j : LexLt(Suf(t, i), Suf(t, j)))

Str(v) == [t |-> "s", v |-> v, p |-> "str"]
IsInt(x) == x.t = "n" /\ x.p = "int"
IntOf(x) == (x.v[1] * 1048576 + x.v[2]) \div 4
(* the answer to a question about the text t; tag "bag", "levels", "sa": see Agrees *)
RBag(S) == [tag |-> "bag", s |-> "", n |-> Cardinality(S), l |-> {Str(v) : v \in S}]
Ans(t, op) ==
  CASE op.op = "has" -> RBool(IsText(op.x) /\ (op.x.v = <<>> \/ Occ(t, op.x.v) # {}))
    [] op.op = "count" -> RInt(IF ~IsText(op.x) THEN 0 ELSE Cardinality(Occ(t, op.x.v)))
    [] op.op = "len" -> RInt(Cardinality(Branches(t)) + Len(t) + 2)
    [] op.op = "leaves" -> RInt(Len(t) + 1)
    [] op.op = "height" -> RInt(Depth(t, Branches(t)))
    [] op.op = "depth" -> RInt(0)
    [] op.op \in {"iter", "to_list"} -> [tag |-> "levels", s |-> "", n |-> 0, l |-> <<>>]
    [] op.op = "array" -> [tag |-> "sa", s |-> "", n |-> 0, l |-> <<>>]
    [] op.op \in {"lrs", "lcs"} -> RBag(Repeated(t))
    [] op.op = "lca" -> IF ~IsInt(op.x) \/ ~IsInt(op.y) THEN RExc("TypeError")
                        ELSE IF IntOf(op.x) \notin 0..Len(t) \/ IntOf(op.y) \notin 0..Len(t) THEN RExc("ValueError")
                        ELSE RVal(Str(Lcp(Suf(t, IntOf(op.x)), Suf(t, IntOf(op.y)))))
NewErr(x) == CASE NoValue(x) -> BadItemErr(x) [] ~IsText(x) -> "TypeError" [] x.v = <<>> -> "ValueError" [] OTHER -> ""

SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in DOMAIN a : Cardinality({ j \in DOMAIN a : a[j] = a[i] }) = Cardinality({ j \in DOMAIN b : b[j] = a[i] })
RECURSIVE ByLevel(_, _, _, _)
ByLevel(t, B, l, d) ==
  IF d > Depth(t, B) THEN l = <<>>
  ELSE LET v == Level(t, B, d)
       IN Len(l) >= Len(v) /\ SameBag(SubSeq(l, 1, Len(v)), v) /\ ByLevel(t, B, SubSeq(l, Len(v) + 1, Len(l)), d + 1)
Agrees(t, res, want) ==
  CASE want.tag = "bag" -> /\ res.tag = "list" /\ Len(res.l) = want.n
                           /\ { res.l[i] : i \in DOMAIN res.l } = want.l
    [] want.tag = "levels" -> /\ res.tag = "list" /\ \A i \in DOMAIN res.l : IsText(res.l[i])
                              /\ ByLevel(t, Branches(t), [i \in DOMAIN res.l |-> res.l[i].v], 1)
    [] want.tag = "sa" -> /\ res.tag = "list" /\ \A i \in DOMAIN res.l : IsInt(res.l[i])
                          /\ IsSuffixArray(t, [i \in DOMAIN res.l |-> IntOf(res.l[i])])
    [] OTHER -> res = want
Asks == {"len", "leaves", "height", "depth", "iter", "to_list", "array", "lrs", "lcs"}
=============================================================================
