------------------------------ MODULE Pictures ------------------------------
(* How every kind of collection is drawn. A view is                          *)
(*   [labels  the texts of the elements in the order of the kind             *)
(*            (binary trees: in pre-order),                                  *)
(*    levels  (skip lists) for each level from the lowest: which of the      *)
(*            elements of the lowest level are on it,                        *)
(*    g       (trees) <<>> or <<[tx, k : Seq]>>,                             *)
(*    b       (binary trees, heaps) <<>> or <<[d, m, l, r]>>]                *)
(* Texts are sequences of code points.                                       *)
EXTENDS BinTree
Ch == [h |-> 9472, v |-> 9474, tl |-> 9484, tr |-> 9488, bl |-> 9492, br |-> 9496, vr |-> 9500, vl |-> 9508,
       td |-> 9516, bu |-> 9524, right |-> 10230, both |-> 10231, up |-> 8593, bar |-> 124]
Line(n) == Rep(Ch.h, n)
W(x) == Len(x) + 2
Pad(x) == <<32>> \o x \o <<32>>
Over(ls, F(_)) == Flat([i \in DOMAIN ls |-> F(ls[i])])
Lines(a, b, c) == Join(<<a, b, c>>)

LLRows(ls) == << Over(ls, LAMBDA x : <<Ch.tl>> \o Line(W(x)) \o <<Ch.tr, 32>>),
                 Over(ls, LAMBDA x : <<Ch.v>> \o Pad(x) \o <<Ch.v, Ch.right>>),
                 Over(ls, LAMBDA x : <<Ch.bl>> \o Line(W(x)) \o <<Ch.br, 32>>) >>
NoList == Lines(<<Ch.tl, Ch.h>>, <<Ch.v>>, <<Ch.bl, Ch.h>>)
LL(ls) == IF ls = <<>> THEN NoList ELSE Join(LLRows(ls))
DLL(ls) == IF ls = <<>> THEN NoList ELSE
  Lines(Over(ls, LAMBDA x : <<32, Ch.tl>> \o Line(W(x)) \o <<Ch.tr>>) \o <<32>>,
        Over(ls, LAMBDA x : <<Ch.both, Ch.v>> \o Pad(x) \o <<Ch.v>>) \o <<Ch.both>>,
        Over(ls, LAMBDA x : <<32, Ch.bl>> \o Line(W(x)) \o <<Ch.br>>) \o <<32>>)
CLL(ls) == IF ls = <<>> THEN NoList ELSE
  LET r == LLRows(ls)
      off == (Len(ls[1]) + 4) \div 2
      rest == Len(r[2]) - off         \* up to below the turn at the end
  IN Join(<< r[1], r[2] \o <<32, Ch.tr>>, r[3] \o <<32, Ch.v>>,
             Sp(off) \o <<Ch.up>> \o Sp(rest) \o <<Ch.v>>,
             Sp(off) \o <<Ch.bl>> \o Line(rest) \o <<Ch.br>> >>)
Stack(ls) == Lines(<<Ch.tl>> \o Over(ls, LAMBDA x : Line(W(x)) \o <<Ch.td>>) \o <<Ch.h>>,
                   <<Ch.v>> \o Over(ls, LAMBDA x : Pad(x) \o <<Ch.v>>) \o <<32>>,
                   <<Ch.bl>> \o Over(ls, LAMBDA x : Line(W(x)) \o <<Ch.bu>>) \o <<Ch.h>>)
Queue(ls, dir) == LET e == IF ls = <<>> THEN <<>> ELSE <<Ch.h>>
                      m == IF ls = <<>> THEN <<>> ELSE <<dir>>
  IN Lines(<<Ch.h, Ch.td>> \o Over(ls, LAMBDA x : Line(W(x)) \o <<Ch.td>>) \o e,
           <<dir, Ch.v>> \o Over(ls, LAMBDA x : Pad(x) \o <<Ch.v>>) \o m,
           <<Ch.h, Ch.bu>> \o Over(ls, LAMBDA x : Line(W(x)) \o <<Ch.bu>>) \o e)

(* a skip list: a column per element, its levels from the highest *)
On(lv, k, i) == k \in DOMAIN lv /\ lv[k][i]
Skip(ls, lv) ==
  LET n == Len(lv)
      Top == Flat([i \in DOMAIN ls |-> IF On(lv, n, i) THEN <<Ch.tl>> \o Line(W(ls[i])) \o <<Ch.tr, 32>> ELSE Sp(W(ls[i]) + 3)])
      Mid(k) == Flat([i \in DOMAIN ls |-> IF On(lv, k, i) THEN <<Ch.bar>> \o Pad(ls[i]) \o <<Ch.v, Ch.right>>
                                          ELSE Rep(Ch.right, W(ls[i]) + 3)])
      Low(k) == Flat([i \in DOMAIN ls |->
                  IF On(lv, k, i) THEN (IF k = 1 THEN <<Ch.bl>> ELSE <<Ch.vr>>) \o Line(W(ls[i]))
                                       \o (IF k = 1 THEN <<Ch.br, 32>> ELSE <<Ch.vl, 32>>)
                  ELSE IF On(lv, k - 1, i) THEN <<Ch.tl>> \o Line(W(ls[i])) \o <<Ch.tr, 32>> ELSE Sp(W(ls[i]) + 3)])
  IN Join(<<Top>> \o Flat([j \in 1..n |-> << Mid(n + 1 - j), Low(n + 1 - j) >>]))

(* a tree: one line per node, below its parent *)
RECURSIVE Rows(_, _)
Rows(u, front) ==        \* the lines below u, each starting with front
  Flat([i \in DOMAIN u.k |->
     LET c == u.k[i]
         last == i = Len(u.k)
     IN << front \o <<IF last THEN Ch.bl ELSE Ch.vr, Ch.h, IF c.k = <<>> THEN Ch.h ELSE Ch.td, 32>> \o c.tx >>
        \o Rows(c, front \o (IF last THEN <<32, 32>> ELSE <<Ch.v, 32>>))])
Tree(g) == IF g = <<>> THEN <<45, 45>> ELSE Join(<<g[1].tx>> \o Rows(g[1], <<>>))

Lists == {"ll", "dll", "cll", "stack", "queue", "deque", "pq", "skip"}
Draw(kind, v) ==
  CASE kind = "ll" -> LL(v.labels) [] kind = "dll" -> DLL(v.labels) [] kind = "cll" -> CLL(v.labels)
    [] kind = "stack" -> Stack(v.labels) [] kind \in {"queue", "pq"} -> Queue(v.labels, Ch.right)
    [] kind = "deque" -> Queue(v.labels, Ch.both) [] kind = "skip" -> Skip(v.labels, v.levels)
    [] kind = "tree" -> Tree(v.g)
    [] kind \in {"trie", "radix", "suffix"} -> Tree(IF v.g[1].k = <<>> THEN <<>> ELSE v.g)    \* no word yet
    [] OTHER -> Picture(v.b, v.labels)
=============================================================================
