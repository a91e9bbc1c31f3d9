------------------------------- MODULE HeapMC -------------------------------
(* Every heap of at most MaxLen values out of 0..Keys-1 that the library's   *)
(* algorithm can reach, equal values included.                               *)
EXTENDS HeapWorld, Json
CONSTANTS Keys, MaxLen
VARIABLES s, path
Blank == [op |-> "", o |-> "a", a |-> "", x |-> NoItem, xs |-> <<>>, f |-> ""]
Op(n) == [Blank EXCEPT !.op = n]
Vals == { Num(k) : k \in 0..(Keys - 1) }
Text == [t |-> "s", v |-> <<49>>, p |-> "str"]
MutOps == (IF Len(s) < MaxLen THEN { [Op("insert") EXCEPT !.x = x] : x \in Vals } ELSE {})
      \cup { [Op("remove") EXCEPT !.x = x] : x \in Vals } \cup { Op(f) : f \in {"remove_min", "remove_max", "clear"} }
Asks == { Op(f) : f \in {"len", "is_empty", "max", "min", "iter", "to_list"} }
   \cup { [Op("contains") EXCEPT !.x = x] : x \in Vals \cup {Num(-1), Num(Keys)} }
   \cup { [Op(f) EXCEPT !.x = x] : f \in {"insert", "contains", "remove"}, x \in {NoItem, Text, ExtraItem} }
V == [o \in {"a"} |-> s]
Init == s = <<>> /\ path = << Op("new") >>
Next == \E op \in MutOps : s' = Alg(s, op) /\ path' = Append(path, op)
Spec == Init /\ [][Next]_<<s, path>>
View == s
EmitState ==
  PrintT("STATE " \o ToJson([pre |-> path, loops |-> { op \in MutOps : Alg(s, op) = s } \cup Asks,
                             steps |-> { op \in MutOps : Alg(s, op) # s }, tails |-> {}]))
Order == Ordered(s)
Achieves == \A op \in MutOps : LET j == Judge(V, op) t == Alg(s, op) IN
  CASE Rejected(j.res) -> t = s
    [] j.m = "" -> t = s
    [] j.m = "bag" -> SameBag(t, j.s)
    [] j.m = "one" -> Lost(s, t, j.s[1])
Top == s # <<>> => Eq(s[1], IF Kind = "min" THEN Least(s) ELSE Greatest(s))
(* the other extreme lies in the second half *)
Far == s # <<>> => LET f == IF Kind = "min" THEN Greatest(s) ELSE Least(s) IN
          \E i \in (Len(s) \div 2 + 1)..Len(s) : Eq(s[i], f)
Shape == Len(s) > 0 => Bfs(AsTree(s, 1)) = s
=============================================================================
