------------------------------- MODULE TrieMC -------------------------------
(* All tries of at most MaxWords words of at most MaxLen letters, as reached *)
(* by insertions and removals in any order.                                  *)
EXTENDS TrieWorld, Json
CONSTANTS MaxLen, MaxWords, Letters
VARIABLES t, path
Blank == [op |-> "", o |-> "a", x |-> NoItem]
Op(n) == [Blank EXCEPT !.op = n]
Alpha == IF Letters = 2 THEN {97, 125} ELSE {97, 125, 36}
Texts == UNION { [1..i -> Alpha] : i \in 0..MaxLen }
Ws == Texts \ {<<>>}
Muts == { [Op("insert") EXCEPT !.x = Str(s)] : s \in { s \in Ws : Cardinality(t.w \cup {s}) <= MaxWords } }
        \cup { [Op("remove") EXCEPT !.x = Str(s)] : s \in Texts } \cup {Op("clear")}
Queries == { [Op(f) EXCEPT !.x = Str(s)] : f \in {"contains", "prefix", "complete"}, s \in Texts }
   \cup { Op(f) : f \in Asks \ {"contains", "prefix", "complete"} }
   \cup { [Op(f) EXCEPT !.x = x] : f \in {"insert", "contains", "prefix", "complete", "remove"}, x \in {NoItem, ExtraItem, Num(1)} }
   \cup { [Op("insert") EXCEPT !.x = Str(s)] : s \in { <<>>, <<32, 10>> } }
After(op) == CASE op.op = "insert" -> Ins(t, op.x.v) [] op.op = "remove" -> Del(t, op.x.v) [] OTHER -> Empty
Init == t = Empty /\ path = << Op("new") >>
Next == \E op \in Muts : t' = After(op) /\ path' = Append(path, op)
Spec == Init /\ [][Next]_<<t, path>>
View == t
EmitState == PrintT("STATE " \o ToJson([pre |-> path, loops |-> { op \in Muts : After(op) = t } \cup Queries,
                                        steps |-> { op \in Muts : After(op) # t }, tails |-> {}]))
Inv == /\ Rules(t)
       /\ Cardinality(t.n) >= Cardinality(t.w)
       (* the number of strings bounds the nodes of a radix trie, unless removals left chains *)
       /\ (Kind = "radix" /\ Tight(t)) => Cardinality(t.n) <= Max2(0, 2 * Cardinality(t.w) - 1)
       /\ \A s \in Ws : /\ s \in Ins(t, s).w /\ s \notin Del(t, s).w
                        /\ Rules(Ins(t, s)) /\ Rules(Del(t, s))
                        /\ (Kind = "radix" /\ Tight(t) => Tight(Ins(t, s)))
                        /\ (s \notin t.w /\ Kind = "trie" => Del(Ins(t, s), s) = t)
       /\ \A p \in Texts : (p = <<>> \/ \E s \in t.w : Prefix(p, s)) <=> (p = <<>> \/ \E q \in t.n : Prefix(p, q))
=============================================================================
