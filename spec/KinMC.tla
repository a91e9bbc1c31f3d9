------------------------------- MODULE KinMC -------------------------------
(* Every way to link N nodes of class Ty (search-tree nodes: in order) by at *)
(* most Depth calls, and what they then answer.                              *)
EXTENDS KinWorld, Json, FiniteSets
CONSTANTS Ty, N, Depth
VARIABLES g, path
Blank == [op |-> "", ty |-> "", o |-> "a", a |-> "", x |-> NoItem, tx |-> "", q |-> NoItem, f |-> "", n |-> 0, ch |-> "", as |-> <<>>]
Op(n) == [Blank EXCEPT !.op = n]
Name(i) == "n" \o ToString(i)
Text(v) == [t |-> "s", v |-> v, p |-> "str"]
Datum(i) == IF Ty = "trie" THEN Text(<<96 + i>>) ELSE IF Ty = "skip" /\ i = 1 THEN NegInf ELSE Num(i)
Shows(i) == IF Ty = "trie" THEN SubSeq(<<"a", "b", "c", "d", "e">>, i, i)[1] ELSE IF Ty = "skip" /\ i = 1 THEN "-inf" ELSE ToString(i)
Make(i) == [Op("new") EXCEPT !.o = Name(i), !.ty = Ty, !.x = Datum(i), !.tx = Shows(i),
            !.q = IF Ty \in {"prio", "treap"} THEN Num(10 * i - 20) ELSE NoItem, !.f = IF Ty = "rb" /\ i % 2 = 0 THEN "BLACK" ELSE ""]
RECURSIVE Do(_, _)
Do(s, ops) == IF ops = <<>> THEN s ELSE Do(Judge(s, Head(ops)).s, Tail(ops))
Begin == [i \in 1..N |-> Make(i)]
Empty == [o \in {} |-> 0]
Nodes == DOMAIN g
L2(f) == { [Op(f) EXCEPT !.o = o, !.a = a] : o \in Nodes, a \in Nodes \cup {""} }
IsList == Ty \in ListTypes
IsTree == Ty \in Search \cup {"bin", "heap"}
RECURSIVE Reach(_, _)
Reach(n, k) == IF n = "" \/ k = 0 THEN {} ELSE {n} \cup Reach(g[n].l, k - 1) \cup Reach(g[n].r, k - 1)
Roots == { n \in Nodes : \A m \in Nodes : n \notin {g[m].l, g[m].r} }
(* links that make ordered trees *)
Grow == { op \in { [Op(f) EXCEPT !.o = o, !.a = a] : f \in {"left", "right"}, o \in Nodes, a \in Roots } :
            /\ op.o \notin Reach(op.a, N)
            /\ (IF op.op = "left" THEN g[op.o].l ELSE g[op.o].r) = ""
            /\ (Ty \in Search => IF op.op = "left" THEN Lt(g[op.a].d, g[op.o].d) ELSE Lt(g[op.o].d, g[op.a].d)) }
Steps == IF IsList THEN L2("set_next") \cup (IF Ty \in {"doubly", "prio"} THEN L2("set_prev") ELSE {})
                        \cup (IF Ty = "skip" THEN { op \in L2("set_down") : op.a # "" } ELSE {})
         ELSE IF IsTree THEN Grow
         ELSE IF Ty = "tree" THEN { [Op("set_child") EXCEPT !.o = o, !.a = a] : o \in Nodes, a \in Nodes }
         ELSE { [Op("set_child") EXCEPT !.o = o, !.a = a, !.ch = c] : o \in Nodes, a \in Nodes, c \in {"x", "y"} }
(* other changes, tried from every state but not continued *)
Rest == (IF IsTree /\ Ty \in Search THEN { op \in L2("left") \cup L2("right") \cup L2("set_parent") : op.a = "" } ELSE {})
        \cup (IF Ty \in {"bst", "avl", "rb", "bin", "heap", "tree"} THEN { op \in L2("swap") : op.a # "" } ELSE {})
        \cup (IF Ty = "tree" THEN { [Op("set_children") EXCEPT !.o = o, !.as = s] : o \in Nodes, s \in {<<>>} \cup { <<x, y>> : x \in Nodes, y \in Nodes } } ELSE {})
        \cup (IF Ty = "avl" THEN { [Op("set_height") EXCEPT !.o = o, !.n = 3] : o \in Nodes } ELSE {})
        \cup (IF Ty = "rb" THEN { [Op("set_color") EXCEPT !.o = o, !.f = f] : o \in Nodes, f \in {"RED", "BLACK"} } ELSE {})
        \cup (IF Ty \in {"prio", "treap"} THEN { [Op("set_priority") EXCEPT !.o = o, !.q = Num(0)] : o \in Nodes } ELSE {})
        \cup (IF Ty \in {"node", "doubly", "prio"} THEN { [Op("set_data") EXCEPT !.o = o, !.x = Text(<<97, 10>>), !.tx = "a\\\\n"] : o \in Nodes } ELSE {})
Getters == (IF IsList THEN {"data", "next", "repr"} ELSE {"data", "is_leaf", "kids", "repr"})
           \cup (IF Ty \in {"doubly", "prio"} THEN {"prev"} ELSE {}) \cup (IF Ty = "skip" THEN {"down"} ELSE {})
           \cup (IF Ty \in {"prio", "treap"} THEN {"priority"} ELSE {})
           \cup (IF Ty \in Search THEN {"parent", "grand_parent", "uncle", "sibling", "is_left"} ELSE {})
           \cup (IF IsTree THEN {"get_left", "get_right", "one_child"} ELSE {})
           \cup (IF Ty = "avl" THEN {"height", "left_height", "right_height", "heights", "balanced"} ELSE {})
           \cup (IF Ty = "rb" THEN {"color"} ELSE {}) \cup (IF Ty = "trie" THEN {"parent"} ELSE {})
QText(o) == IF g[o].q.t = "none" THEN "" ELSE LET n == 10 * (CHOOSE i \in 1..N : Name(i) = o) - 20 IN ToString(n)
Asks == { op \in { [Op(f) EXCEPT !.o = o, !.tx = IF f = "repr" THEN QText(o) ELSE ""] : f \in Getters, o \in Nodes } :
            Asked(g, op) /\ ~(op.op = "is_left" /\ g[op.o].p = "") }
        \cup (IF Ty = "trie" THEN { [Op("get_child") EXCEPT !.o = o, !.ch = c] : o \in Nodes, c \in {"x", "z"} } ELSE {})
Bads == { [Op(f) EXCEPT !.o = o, !.a = "#"] : o \in Nodes,
            f \in IF IsList THEN {"set_next"} \cup (IF Ty \in {"doubly", "prio"} THEN {"set_prev"} ELSE IF Ty = "skip" THEN {"set_down"} ELSE {})
                  ELSE IF Ty = "tree" THEN {"set_child", "swap"} ELSE IF IsTree THEN {"left", "right", "swap"} \cup (IF Ty \in Search THEN {"set_parent"} ELSE {}) ELSE {"set_child"} }
        \cup (IF Ty = "rb" THEN { [Op("set_color") EXCEPT !.o = o, !.f = "GREEN"] : o \in Nodes } ELSE {})
        \cup (IF Ty = "avl" THEN { [Op("set_height") EXCEPT !.o = o, !.n = -1] : o \in Nodes } \cup { [Op("set_height") EXCEPT !.o = o, !.f = "bad"] : o \in Nodes } ELSE {})
        \cup (IF Ty \in {"prio", "treap"} THEN { [Op("set_priority") EXCEPT !.o = o, !.q = Text(<<49>>)] : o \in Nodes } ELSE {})
        \cup (IF Ty = "tree" THEN { [Op("set_children") EXCEPT !.o = o, !.as = <<a>>, !.f = f] : o \in Nodes, a \in Nodes, f \in {"bad", "noniter"} } ELSE {})
        \cup (IF Ty = "trie" THEN { [Op("set_child") EXCEPT !.o = o, !.a = o, !.f = "badkey"] : o \in Nodes } ELSE {})
        \cup { [Op("new") EXCEPT !.o = "z", !.ty = Ty, !.x = x] : x \in
               IF Ty \in Numeric THEN {Text(<<49>>), [Num(1) EXCEPT !.p = "bool"]} ELSE IF Ty = "trie" THEN {NoItem, Num(1)} ELSE {NoItem, ExtraItem} }
Init == g = Do(Empty, Begin) /\ path = Begin
Next == Len(path) < N + Depth /\ \E op \in Steps : g' = Judge(g, op).s /\ path' = Append(path, op)
Spec == Init /\ [][Next]_<<g, path>>
View == g
EmitState ==
  PrintT("STATE " \o ToJson([pre |-> path, loops |-> Asks \cup Bads, steps |-> Rest \cup IF Len(path) < N + Depth THEN {} ELSE Steps, tails |-> {}]))
(* refused calls change nothing; a call that links changes what it says *)
Refused == \A op \in Bads : LET j == Judge(g, op) IN Rejected(j.res) /\ (op.op # "new" => j.s = g)
Linked == \A op \in Steps \cup Rest : ~Rejected(Judge(g, op).res) /\
  LET s == Judge(g, op).s
      a == op.a
  IN /\ DOMAIN s = Nodes
     /\ op.op = "set_next" => s[op.o].r = a /\ (a # "" /\ Ty \in {"doubly", "prio"} => s[a].l = op.o)
     /\ op.op = "set_prev" => s[op.o].l = a /\ (a # "" => s[a].r = op.o)
     /\ op.op \in {"left", "right"} /\ a # "" /\ Ty \in Search => s[a].p = op.o
     /\ \A n \in Nodes \ {op.o, a} : s[n] = g[n]
(* kin is mutual in trees that are in order *)
Kin == Ty \notin Search \/ \A n \in Nodes : g[n].p # "" =>
  /\ Placed(g, n)
  /\ LET s == Other(g, n) IN s # "" => s # n /\ Other(g, s) = n /\ g[s].p = g[n].p
  /\ LET q == Up(g, g[n].p) IN q # "" => n \in Reach(q, N) \ {q, g[n].p}
(* stored heights of nodes linked bottom up are the true ones *)
=============================================================================
