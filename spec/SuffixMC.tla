------------------------------ MODULE SuffixMC ------------------------------
(* All texts of at most MaxLen characters.                                   *)
EXTENDS SuffixWorld, Json
CONSTANTS MaxLen, Alpha, Ask    \* Ask: "find", "shape", "array", "repeat", "lca"
VARIABLE t
Blank == [op |-> "", o |-> "a", x |-> NoItem, y |-> NoItem]
Op(n) == [Blank EXCEPT !.op = n]
Letters == CASE Alpha = 1 -> {97, 98} [] Alpha = 2 -> {97, 98, 99} [] Alpha = 3 -> {32, 36, 125}
RECURSIVE Over(_, _)
Over(A, n) == UNION { [1..i -> A] : i \in 0..n }
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E c \in Letters : t' = Append(t, c)
Spec == Init /\ [][Next]_t
c == Clean(t)
Asked == LET L == Letters \ {End} IN
  CASE Ask = "find" -> { [Op(f) EXCEPT !.x = Str(p)] : f \in {"has", "count"}, p \in (Over(L, 3) \cup Subs(c) \cup { Append(c, 97) }) \ {<<>>} }
                       \cup { [Op(f) EXCEPT !.x = x] : f \in {"has", "count"}, x \in {NoItem, Num(1)} } \cup { [Op("has") EXCEPT !.x = Str(<<>>)] }
    [] Ask = "shape" -> { Op(f) : f \in {"len", "leaves", "height", "depth", "iter", "to_list"} }
    [] Ask = "array" -> { Op("array") }
    [] Ask = "repeat" -> { Op(f) : f \in {"lrs", "lcs"} }
    [] Ask = "lca" -> { [Op("lca") EXCEPT !.x = Num(i), !.y = Num(j)] : <<i, j>> \in { q \in (-1..(Len(c) + 1)) \X (-1..(Len(c) + 1)) : q[1] # q[2] } }
                      \cup { [Op("lca") EXCEPT !.x = x, !.y = y] : <<x, y>> \in { <<Num(0), Str(<<48>>)>>, <<NoItem, Num(0)>>, <<Num(0), Flt(0)>> } }
News == { [Op("new") EXCEPT !.o = "z", !.x = x] : x \in { NoItem, ExtraItem, Num(3), Str(<<>>) } }
EmitState == PrintT("STATE " \o ToJson(
  IF t = <<>> THEN [pre |-> <<>>, loops |-> News, steps |-> {}, tails |-> {}]
  ELSE [pre |-> << [Op("new") EXCEPT !.x = Str(t)] >>, loops |-> Asked, steps |-> {}, tails |-> {}]))
(* the notions fit together *)
Lens(S) == { Len(p) : p \in S }
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
Inv == LET B == Branches(c)
           A == SuffixArray(c)
       IN /\ Cardinality(B) <= Len(c)
          /\ Repeated(c) \subseteq B \cup {<<>>}
          /\ \A i, j \in 0..Len(c) : i # j => Lcp(Suf(c, i), Suf(c, j)) \in B \cup {<<>>}
          /\ B \cup {<<>>} = { Lcp(Suf(c, i), Suf(c, j)) : <<i, j>> \in { q \in (0..Len(c)) \X (0..Len(c)) : q[1] # q[2] } } \cup {<<>>}
          /\ (Placed(c) => IsSuffixArray(c, A))
          (* neighbours in the suffix array hold the longest repeated text *)
          /\ \A p \in Repeated(c) :
               Len(p) = MaxOf({0} \cup { Len(Lcp(Suf(c, A[i]), Suf(c, A[i + 1]))) : i \in 1..Len(c) })
          (* a trie has all its nodes on its levels, and every text of it is found *)
          /\ LET RECURSIVE S(_) S(d) == IF d = 0 THEN 0 ELSE Len(Level(c, B, d)) + S(d - 1)
             IN S(Depth(c, B)) = Cardinality(B) + Len(c) + 1
          /\ \A p \in Subs(c) : Occ(c, p) # {}
          /\ \A d \in 1..Depth(c, B) : LET v == Level(c, B, d) IN \A i \in DOMAIN v : v[i] # <<>>
=============================================================================
