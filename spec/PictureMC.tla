------------------------------ MODULE PictureMC ------------------------------
(* All small views of each kind, and what their pictures have in common.     *)
EXTENDS Pictures, Json, TLC, FiniteSets
CONSTANTS Kind, Max       \* Kind: "list", "tree" or "bin"
VARIABLES ls, b, g
Tx == { <<55>>, <<97, 98>>, <<119, 32, 120, 121, 122>> }
Str(v) == [t |-> "s", v |-> v, p |-> "str"]
RECURSIVE Grow(_, _), Hang(_, _)
Lf(x) == << [d |-> Str(x), m |-> 0, l |-> <<>>, r |-> <<>>] >>
Grow(t, x) == IF t = <<>> THEN { Lf(x) }
  ELSE { << [t[1] EXCEPT !.l = u] >> : u \in Grow(t[1].l, x) } \cup { << [t[1] EXCEPT !.r = u] >> : u \in Grow(t[1].r, x) }
Hang(u, x) == { [u EXCEPT !.k = Append(@, [tx |-> x, k |-> <<>>])] }
              \cup UNION { { [u EXCEPT !.k[i] = c] : c \in Hang(u.k[i], x) } : i \in DOMAIN u.k }
RECURSIVE Nodes(_)
Nodes(u) == 1 + Len(Flat([i \in DOMAIN u.k |-> [j \in 1..Nodes(u.k[i]) |-> 0]]))
Init == ls = <<>> /\ b = <<>> /\ g = <<>>
Next ==
  \/ Kind = "list" /\ Len(ls) < Max /\ (\E x \in Tx : ls' = Append(ls, x)) /\ UNCHANGED <<b, g>>
  \/ Kind = "bin" /\ Size(b) < Max /\ (\E x \in Tx : b' \in Grow(b, x)) /\ UNCHANGED <<ls, g>>
  \/ Kind = "tree" /\ (IF g = <<>> THEN \E x \in Tx : g' = << [tx |-> x, k |-> <<>>] >>
                       ELSE Nodes(g[1]) < Max /\ \E x \in Tx : \E u \in Hang(g[1], x) : g' = <<u>>) /\ UNCHANGED <<ls, b>>
Spec == Init /\ [][Next]_<<ls, b, g>>
Plain == {"ll", "dll", "cll", "stack", "queue", "deque", "pq"}
Ops == CASE Kind = "list" -> { [op |-> "draw", kind |-> k, xs |-> [i \in DOMAIN ls |-> Str(ls[i])]] : k \in Plain }
         [] Kind = "bin" -> { [op |-> "draw", kind |-> "bin", b |-> b] }
         [] OTHER -> { [op |-> "draw", kind |-> "tree", g |-> g] }
EmitState == PrintT("STATE " \o ToJson([pre |-> <<>>, loops |-> Ops, steps |-> {}, tails |-> {}]))
RECURSIVE Split(_)
Split(v) == IF \A i \in DOMAIN v : v[i] # 10 THEN <<v>>
            ELSE LET i == CHOOSE i \in DOMAIN v : v[i] = 10 /\ \A j \in 1..(i - 1) : v[j] # 10
                 IN << SubSeq(v, 1, i - 1) >> \o Split(SubSeq(v, i + 1, Len(v)))
Within(x, v) == \E i \in 0..(Len(v) - Len(x)) : SubSeq(v, i + 1, i + Len(x)) = x
V == [labels |-> IF Kind = "bin" THEN [i \in 1..Size(b) |-> Pre(b)[i].v] ELSE ls, levels |-> <<>>, g |-> g, b |-> b]
Inv ==
  CASE Kind = "list" -> \A k \in Plain :
         LET p == Split(Draw(k, V))
         IN /\ Len(p) = IF k = "cll" /\ ls # <<>> THEN 5 ELSE 3
            /\ ls # <<>> => \A i \in DOMAIN p : Len(p[i]) = Len(p[2]) \/ k = "cll" \/ Len(p[i]) <= Len(p[2])
            /\ (k = "cll" /\ ls # <<>>) => Len(p[2]) = Len(p[4]) /\ Len(p[4]) = Len(p[5])
            /\ \A i \in DOMAIN ls : Within(Pad(ls[i]), p[2])
    [] Kind = "bin" ->
         LET p == Split(Draw("bin", V))
         IN b = <<>> \/ ( /\ Len(p) = 2 * Levels(b) - 1
                          /\ \A i \in DOMAIN PerLevel(b) : LET v == PerLevel(b)[i] IN
                               /\ \A j \in DOMAIN v : Within(v[j].v, p[2 * i - 1])
                               /\ i > 1 => Cardinality({ c \in DOMAIN p[2 * i - 2] : p[2 * i - 2][c] \in {47, 92} }) = Len(v) )
    [] OTHER -> LET p == Split(Draw("tree", V)) IN g = <<>> \/ Len(p) = Nodes(g[1])
=============================================================================
