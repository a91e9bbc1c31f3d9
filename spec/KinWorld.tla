------------------------------ MODULE KinWorld ------------------------------
(* The nodes the collections are made of, linked by hand.                    *)
(*   w : name -> [ty, d, tx, l, r, p, h, c, q, k]                            *)
(*     ty  class; d item; tx the item as text                                *)
(*     l r p  names of other nodes ("" for none):                            *)
(*       list nodes: previous, next and lower node                           *)
(*       tree nodes: left child, right child and parent                      *)
(*     h stored height (avl)   c colour (rb)   q priority (prio, treap)      *)
(*     k children of a trie node, as <<key, name>>, or of a tree node, keyless *)
EXTENDS Items, TLC
ListTypes == {"node", "doubly", "skip", "prio"}
Search == {"bst", "avl", "rb", "treap"}
Numeric == {"skip", "heap"} \cup Search
(* which classes a class's setters accept (each of its own subclasses) *)
Fits(o, a) == CASE o \in {"node", "skip"} -> a \in ListTypes
                [] o \in {"doubly", "prio"} -> a \in {"doubly", "prio"}
                [] o \in {"bin", "heap"} -> a \in {"bin", "heap"} \cup Search
                [] o \in Search -> a \in Search
                [] o = "tree" -> a \notin ListTypes
                [] o = "trie" -> a = "trie"
NumLike(x) == x.t = "n" /\ x.p # "bool"
New(op) == [ty |-> op.ty, d |-> IF op.ty = "trie" THEN op.x ELSE Stored(op.x), tx |-> op.tx, l |-> "", r |-> "",
            p |-> "", h |-> 0, c |-> IF op.ty = "rb" THEN (IF op.f = "" THEN "RED" ELSE op.f) ELSE "", q |-> op.q, k |-> <<>>]
NewErr(op) ==
  IF op.ty = "trie" THEN (IF op.x.t = "s" THEN "" ELSE "TypeError")
  ELSE IF op.ty \in Numeric THEN (IF NumLike(op.x) THEN (IF op.ty = "rb" /\ op.f \notin {"", "RED", "BLACK"} THEN "ValueError"
                                                       ELSE IF op.ty = "treap" /\ op.q.t # "none" /\ ~NumLike(op.q) THEN "TypeError" ELSE "")
                                  ELSE "TypeError")
  ELSE IF NoValue(op.x) THEN BadItemErr(op.x)
  ELSE IF op.ty = "prio" /\ op.q.t # "none" /\ ~NumLike(op.q) THEN "TypeError" ELSE ""

(* kin of tree nodes, read off the links *)
Up(g, n) == IF n = "" THEN "" ELSE g[n].p
Kids(g, n) == SelectSeq(<<g[n].l, g[n].r>>, LAMBDA c : c # "")
Other(g, n) == LET p == g[n].p IN IF p = "" THEN "" ELSE IF g[p].l = n THEN g[p].r ELSE g[p].l
(* n hangs where its value belongs, so that its side can be told *)
Placed(g, n) == LET p == g[n].p IN
  p # "" /\ ((g[p].l = n /\ g[p].r # n /\ Lt(g[n].d, g[p].d)) \/ (g[p].r = n /\ g[p].l # n /\ Lt(g[p].d, g[n].d)))
Ht(g, n) == IF n = "" THEN 0 ELSE 1 + g[n].h
RName(n) == IF n = "" THEN RNone ELSE [tag |-> "name", s |-> n, n |-> 0, l |-> <<>>]
RText(s) == [tag |-> "text", s |-> s, n |-> 0, l |-> <<>>]
Tx(g, n) == IF n = "" THEN "None" ELSE g[n].tx
Shown(g, n, qx) ==
  LET x == g[n]
      u == IF ~Infinite(x.d) THEN x.tx ELSE IF x.d.v[1] > 0 THEN "\\u221e" ELSE "-\\u221e"
  IN CASE x.ty = "node" -> "Node(data: " \o x.tx \o ", next: " \o Tx(g, x.r) \o ")"
       [] x.ty = "doubly" -> "DoublyNode(data: " \o x.tx \o ", prev: " \o Tx(g, x.l) \o ", next: " \o Tx(g, x.r) \o ")"
       [] x.ty = "skip" -> "SkipNode(data: " \o u \o ", next: " \o Tx(g, x.r) \o ")"
       [] x.ty = "prio" -> "PriorityNode(data: " \o x.tx \o ", Priority: " \o qx \o ")"
       [] x.ty = "tree" -> "TreeNode(" \o x.tx \o ")"
       [] x.ty = "bin" -> "BinaryTreeNode(" \o x.tx \o ")"
       [] x.ty = "heap" -> "HeapNode(" \o x.tx \o ")"
       [] x.ty = "bst" -> "BSTNode(" \o x.tx \o ")"
       [] x.ty = "avl" -> "AVLNode(" \o x.tx \o ")"
       [] x.ty = "rb" -> (IF x.c = "RED" THEN "RedNode(" ELSE "BlackNode(") \o x.tx \o ")"
       [] x.ty = "treap" -> "TreapNode(data: " \o x.tx \o ", Priority: " \o qx \o ")"
       [] x.ty = "trie" -> "TrieNode(" \o x.tx \o ")"

Want(s, r) == [s |-> s, res |-> r]
Heighten(g, o) == IF g[o].ty = "avl" THEN [g EXCEPT ![o].h = Max2(Ht(g, g[o].l), Ht(g, g[o].r))] ELSE g
Hang(g, o, side, a) ==
  LET g1 == IF side = "left" THEN [g EXCEPT ![o].l = a] ELSE [g EXCEPT ![o].r = a]
      g2 == IF a # "" /\ g[o].ty \in Search THEN [g1 EXCEPT ![a].p = o] ELSE g1
  IN Heighten(g2, o)
KeyAt(k, ch) == { i \in DOMAIN k : k[i][1] = ch }
RHeights(a, b) == [tag |-> "heights", s |-> "", n |-> a, l |-> <<Num(b)>>]

(* a: a node's name, "" for None, "#" for something that is no node at all *)
Judge(g, op) ==
  LET o == op.o
      a == op.a
      ty == g[o].ty
      no == Want(g, RExc("TypeError"))
  IN
  CASE op.op = "new" -> IF NewErr(op) # "" THEN Want(g, RExc(NewErr(op))) ELSE Want((o :> New(op)) @@ g, RNone)
    [] op.op = "data" -> Want(g, RVal(g[o].d))
    [] op.op = "set_data" -> IF NoValue(op.x) THEN Want(g, RExc(BadItemErr(op.x)))
                             ELSE Want([g EXCEPT ![o].d = Stored(op.x), ![o].tx = op.tx], RNone)
    [] op.op = "set_next" -> IF a = "" THEN Want([g EXCEPT ![o].r = ""], RNone)
                             ELSE IF a = "#" THEN no
                             ELSE IF ~Fits(ty, g[a].ty) THEN no
                             ELSE IF ty \in {"doubly", "prio"} THEN Want([g EXCEPT ![o].r = a, ![a].l = o], RNone)
                             ELSE Want([g EXCEPT ![o].r = a], RNone)
    [] op.op = "set_prev" -> IF a = "" THEN Want([g EXCEPT ![o].l = ""], RNone)
                             ELSE IF a = "#" THEN no
                             ELSE IF ~Fits(ty, g[a].ty) THEN no
                             ELSE Want([g EXCEPT ![o].l = a, ![a].r = o], RNone)
    [] op.op = "set_down" -> IF a \in {"", "#"} THEN no
                             ELSE IF g[a].ty # "skip" THEN no ELSE Want([g EXCEPT ![o].p = a], RNone)
    [] op.op = "next" -> Want(g, RName(g[o].r))
    [] op.op = "prev" -> Want(g, RName(g[o].l))
    [] op.op = "down" -> Want(g, RName(g[o].p))
    [] op.op = "priority" -> Want(g, RVal(g[o].q))
    [] op.op = "set_priority" -> IF NumLike(op.q) THEN Want([g EXCEPT ![o].q = op.q], RNone) ELSE no
    [] op.op \in {"left", "right"} ->
         IF a = "#" \/ (a = "" /\ ty \in {"bin", "heap"}) THEN no
         ELSE IF a # "" /\ ~Fits(ty, g[IF a = "" THEN o ELSE a].ty) THEN no
         ELSE Want(Hang(g, o, op.op, a), RNone)
    [] op.op = "set_parent" -> IF a = "#" THEN no
                               ELSE IF a # "" /\ ~Fits(ty, g[IF a = "" THEN o ELSE a].ty) THEN no
                               ELSE Want([g EXCEPT ![o].p = a], RNone)
    [] op.op = "get_left" -> Want(g, RName(g[o].l))
    [] op.op = "get_right" -> Want(g, RName(g[o].r))
    [] op.op = "parent" -> Want(g, RName(g[o].p))
    [] op.op = "grand_parent" -> Want(g, RName(Up(g, g[o].p)))
    [] op.op = "uncle" -> Want(g, RName(IF Up(g, g[o].p) = "" THEN "" ELSE Other(g, g[o].p)))
    [] op.op = "sibling" -> Want(g, RName(Other(g, o)))
    [] op.op = "is_left" -> Want(g, RBool(g[g[o].p].l = o))
    [] op.op = "is_leaf" -> Want(g, RBool(IF ty \in {"trie", "tree"} THEN g[o].k = <<>> ELSE Kids(g, o) = <<>>))
    [] op.op = "one_child" -> Want(g, RBool(Len(Kids(g, o)) = 1))
    [] op.op = "kids" -> Want(g, LET ks == IF ty \in {"trie", "tree"} THEN [i \in DOMAIN g[o].k |-> g[o].k[i][2]] ELSE Kids(g, o)
                                 IN RList([i \in DOMAIN ks |-> g[ks[i]].d]))
    [] op.op = "height" -> Want(g, RInt(g[o].h))
    [] op.op = "left_height" -> Want(g, RInt(Ht(g, g[o].l)))
    [] op.op = "right_height" -> Want(g, RInt(Ht(g, g[o].r)))
    [] op.op = "heights" -> Want(g, RHeights(Ht(g, g[o].l), Ht(g, g[o].r)))
    [] op.op = "balanced" -> Want(g, RBool(Ht(g, g[o].l) - Ht(g, g[o].r) \in -1..1))
    [] op.op = "set_height" -> IF op.f # "" THEN no
                               ELSE IF op.n < 0 THEN Want(g, RExc("ValueError"))
                               ELSE Want([g EXCEPT ![o].h = op.n], RNone)
    [] op.op = "color" -> Want(g, RText(g[o].c))
    [] op.op = "set_color" -> IF op.f \in {"RED", "BLACK"} THEN Want([g EXCEPT ![o].c = op.f], RNone)
                              ELSE Want(g, RExc("ValueError"))
    [] op.op = "swap" -> IF a \in {"", "#"} THEN no
                         ELSE LET s == [g EXCEPT ![o].d = g[a].d, ![a].d = g[o].d, ![o].tx = g[a].tx, ![a].tx = g[o].tx]
                              IN Want(IF ty = "rb" THEN [s EXCEPT ![o].c = g[a].c, ![a].c = g[o].c] ELSE s, RNone)
    [] op.op = "repr" -> Want(g, RText(Shown(g, o, op.tx)))
    [] op.op = "set_child" /\ ty = "tree" ->
         IF a \in {"", "#"} THEN no ELSE Want([g EXCEPT ![o].k = Append(@, <<"", a>>)], RNone)
    [] op.op = "set_children" ->
         IF op.f \in {"noniter", "bad"} THEN no
         ELSE Want([g EXCEPT ![o].k = [i \in DOMAIN op.as |-> <<"", op.as[i]>>]], RNone)
    [] op.op = "set_child" ->
         IF op.f = "badkey" \/ a \in {"", "#"} THEN no
         ELSE LET k == g[o].k
                  I == KeyAt(k, op.ch)
                  k2 == IF I = {} THEN Append(k, <<op.ch, a>>) ELSE [i \in DOMAIN k |-> IF i \in I THEN <<op.ch, a>> ELSE k[i]]
              IN Want([[g EXCEPT ![o].k = k2] EXCEPT ![a].p = o], RNone)
    [] op.op = "get_child" -> LET I == KeyAt(g[o].k, op.ch)
                              IN Want(g, IF I = {} THEN RNone ELSE RName(g[o].k[CHOOSE i \in I : TRUE][2]))
(* the questions about sides have an answer where values tell them *)
Asked(g, op) == CASE op.op \in {"sibling", "is_left"} -> g[op.o].p = "" \/ Placed(g, op.o)
                  [] op.op = "uncle" -> g[op.o].p = "" \/ g[g[op.o].p].p = "" \/ Placed(g, g[op.o].p)
                  [] OTHER -> TRUE
Rejected(r) == r.tag = "exc"
=============================================================================
