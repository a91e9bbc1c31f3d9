------------------------------- MODULE NodeMC -------------------------------
(* Every tree of at most MaxNodes nodes, built node by node from the root.   *)
EXTENDS NodeWorld, Json, FiniteSets
CONSTANTS MaxNodes, Vals
VARIABLES g, path
NoDir == [n |-> NoItem, d |-> FALSE, k |-> <<>>]
NoNest == [f |-> "v", x |-> NoItem, k |-> <<>>]
Blank == [op |-> "", o |-> "A", a |-> "", as |-> <<>>, x |-> NoItem, f |-> "", dir |-> NoDir, n |-> NoNest]
Op(n) == [Blank EXCEPT !.op = n]
Text(v) == [t |-> "s", v |-> v, p |-> "str"]
Items == { Num(i) : i \in 1..Vals }
Nodes == DOMAIN g \ Trees
Name(i) == "n" \o ToString(i)
Count1 == Cardinality(Nodes)
RECURSIVE Do(_, _)
Do(s, ops) == IF ops = <<>> THEN s ELSE Do(Judge(s, Head(ops)).s, Tail(ops))

(* hanging a new node somewhere *)
Hang ==
  IF Count1 = MaxNodes THEN {}
  ELSE LET n == Name(Count1)
           Mk(x) == [Op("node") EXCEPT !.o = n, !.x = x]
       IN IF Count1 = 0 THEN { << Mk(x), [Op("root") EXCEPT !.a = n] >> : x \in Items }
          ELSE UNION { { << Mk(x), c >> : c \in
                 IF Kind = "tree" THEN { [Op("child") EXCEPT !.o = p, !.a = n] : p \in Nodes }
                 ELSE { [Op(IF i = 1 THEN "left" ELSE "right") EXCEPT !.o = p, !.a = n] :
                          <<p, i>> \in { q \in Nodes \X {1, 2} : g[q[1]].k[q[2]] = "" } } } : x \in Items }
(* changing the links or data of existing nodes without losing any *)
Change ==
  { << [Op("swap") EXCEPT !.o = a, !.a = b] >> : <<a, b>> \in { q \in Nodes \X Nodes : q[1] # q[2] \/ q[1] = "n0" } }
  \cup { << Op("clear") >> }
  \cup (IF Kind = "bin" THEN { << Op("invert") >> }
        ELSE { << [Op("children") EXCEPT !.o = p, !.as = Reverse(g[p].k), !.f = f] >> : p \in Nodes, f \in {"list", "gen"} })
(* moving a node, and what hangs below it, elsewhere; a binary node cannot    *)
(* give up its child, but put a chain of new nodes of the same number there   *)
RECURSIVE Under(_)
Under(n) == {n} \cup UNION { Under(g[n].k[i]) : i \in { j \in DOMAIN g[n].k : g[n].k[j] # "" } }
Without(s, n) == SelectSeq(s, LAMBDA m : m # n)
Side(i) == IF i = 1 THEN "left" ELSE "right"
Chain(k, side) == [i \in 1..(2 * k - 1) |->
  IF i % 2 = 1 THEN [Op("node") EXCEPT !.o = Name(Count1 + i \div 2), !.x = Num(1)]
  ELSE [Op(side) EXCEPT !.o = Name(Count1 + i \div 2 - 1), !.a = Name(Count1 + i \div 2)]]
Fork(k) == IF k # 3 THEN <<>> ELSE
  << [Op("node") EXCEPT !.o = Name(Count1), !.x = Num(1)], [Op("node") EXCEPT !.o = Name(Count1 + 1), !.x = Num(1)],
     [Op("left") EXCEPT !.o = Name(Count1), !.a = Name(Count1 + 1)], [Op("node") EXCEPT !.o = Name(Count1 + 2), !.x = Num(1)],
     [Op("right") EXCEPT !.o = Name(Count1), !.a = Name(Count1 + 2)] >>
Move ==
  UNION { IF Kind = "tree"
          THEN { << [Op("children") EXCEPT !.o = p, !.as = Without(g[p].k, g[p].k[i]), !.f = "list"],
                    [Op("child") EXCEPT !.o = q, !.a = g[p].k[i]] >> : q \in Nodes \ Under(g[p].k[i]) }
          ELSE { c \o << [Op(Side(i)) EXCEPT !.o = p, !.a = Name(Count1)] >> :
                 c \in { Chain(Cardinality(Under(g[p].k[i])), s) : s \in {"left", "right"} } \cup ({ Fork(Cardinality(Under(g[p].k[i]))) } \ { <<>> }) } :
          <<p, i>> \in { r \in Nodes \X (1..MaxNodes) : r[2] \in DOMAIN g[r[1]].k /\ g[r[1]].k[r[2]] # "" } }
NodeAsks == { [Op(f) EXCEPT !.o = n] : f \in {"data", "kids", "is_leaf"} \cup (IF Kind = "bin" THEN {"one_child"} ELSE {}), n \in Nodes }
Bads == { [Op(f) EXCEPT !.o = n, !.f = "bad"] :
            f \in {"swap", "children"} \cup (IF Kind = "bin" THEN {"left", "right"} ELSE {"child"}), n \in Nodes }
        \cup { [Op("children") EXCEPT !.o = n, !.f = "noniter"] : n \in Nodes }
        \cup { [Op("node") EXCEPT !.o = "z", !.x = x] : x \in {NoItem, ExtraItem} }
Asks == { Op(f) : f \in TreeOps \ {"traverse", "contains"} }
        \cup { [Op("contains") EXCEPT !.x = x] : x \in Items \cup {Num(0), Text(<<49>>), NoItem} }
        \cup (IF Kind = "bin" THEN { [Op("traverse") EXCEPT !.f = f] : f \in {"", "inorder", "postorder", "preorder", "depth-first",
                "breadth-first", "InOrder", "notstr", "zigzag"} } ELSE {})

(* folders and nested lists, tried on the empty tree *)
F(n, d, ks) == [n |-> Text(n), d |-> d, k |-> ks]
Small == { F(n, FALSE, <<>>) : n \in { <<98>>, <<66>>, <<46, 97>> } } \cup { F(<<97, 49>>, TRUE, <<>>), F(<<97>>, TRUE, << F(<<122>>, FALSE, <<>>), F(<<10, 121>>, FALSE, <<>>) >>) }
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i].n # s[j].n
Folders == { F(<<100>>, TRUE, s) : s \in { q \in UNION { [1..i -> Small] : i \in 0..3 } : Distinct(q) } } \cup { F(<<102>>, FALSE, <<>>) }
Paths == { [Op("path") EXCEPT !.dir = d, !.f = f] : d \in Folders, f \in {"abs", "slash", "rel", "dot", "up"} }
         \cup { [Op("path") EXCEPT !.f = f] : f \in {"missing", "notstr"} }
V(x) == [f |-> "v", x |-> x, k |-> <<>>]
Ls(k) == [f |-> "l", x |-> NoItem, k |-> k]
Tp(k) == [f |-> "t", x |-> NoItem, k |-> k]
Scal == { V(Num(1)), V(Text(<<97, 10>>)), V(NoItem) }
Nest1 == { Ls(k) : k \in UNION { [1..i -> Scal] : i \in 0..2 } } \cup { Tp(<<V(Num(5)), V(Num(6)), V(Num(7))>>), Ls([i \in 1..4 |-> V(Num(i))]) }
Kid == Nest1 \cup Scal
Nested == { Ls(<<V(Num(9))>> \o k) : k \in UNION { [1..i -> Kid] : i \in 0..2 } } \cup Nest1 \cup { V(Num(1)) }
          \cup { Ls(<<V(NoItem), V(Num(1))>>), Tp(<<V(ExtraItem)>>) }
Parses == { [Op("parse") EXCEPT !.n = n] : n \in Nested }

Init == g = ("A" :> NoTree) /\ path = << Op("tree") >>
Next == \E ops \in Hang \cup Change : g' = Do(g, ops) /\ path' = path \o ops /\ (ops[1].op = "clear" => Nodes = {})
Spec == Init /\ [][Next]_<<g, path>>
Root == RootOf(g, "A")
View == IF Root = "" THEN <<>> ELSE IF Kind = "bin" THEN Bin(g, Root) ELSE << Unf(g, Root) >>
EmitState ==
  PrintT("STATE " \o ToJson([pre |-> path, loops |-> Asks \cup NodeAsks \cup Bads, steps |-> {},
     tails |-> { ops \o <<Op("iter")>> : ops \in Change \cup Hang \cup Move }
               \cup (IF Root # "" THEN {} ELSE { <<q>> : q \in IF Kind = "tree" THEN Paths ELSE Parses })]))
(* the definitions agree with each other *)
U == Unf(g, Root)
T == Bin(g, Root)
Sane == Root = "" \/
  /\ GSize(U) = Cardinality(Nodes) /\ Below(g, Root) = Nodes
  /\ Len(GLevels(U)) = GHeight(U) + 1
  /\ Len(Flat(GLevels(U))) = GSize(U) /\ Len(GPre(U)) = GSize(U)
  /\ GLeaves(U) <= GSize(U)
  /\ Kind = "bin" => /\ GLevels(U) = PerLevel(T) /\ GHeight(U) = Height(T)
                     /\ GLeaves(U) = Leaves(T) /\ GSize(U) = Size(T)
                     /\ Bin(Judge(g, Op("invert")).s, Root) = Mirror(T)
                     /\ Mirror(Mirror(T)) = T
Refused == \A op \in Bads : LET j == Judge(g, op) IN Rejected(j.res) /\ j.s = g
Sorted == Root # "" \/ \A op \in Paths : Rejected(Judge(g, op).res) \/
            LET t == Judge(g, op).t IN GSize(t) >= 1 + Len(op.dir.k)
=============================================================================
