----------------------------- MODULE HeapWorld -----------------------------
(* Binary heaps of numbers, stored level by level in a sequence. As for the  *)
(* search trees, Judge says what a call must achieve and Alg how the library *)
(* does it (sifting up and down).                                            *)
EXTENDS BinTree, FiniteSets, TLC
CONSTANT Kind     \* "min" or "max"
(* a belongs above b *)
Above(a, b) == IF Kind = "min" THEN NumLt(a, b) ELSE NumLt(b, a)
Ordered(s) == \A i \in 2..Len(s) : ~Above(s[i], s[i \div 2])
Has(s, x) == \E i \in DOMAIN s : Eq(s[i], x)
Times(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Times(a, a[i]) = Times(b, a[i])
Least(s) == CHOOSE x \in { s[i] : i \in DOMAIN s } : \A i \in DOMAIN s : ~NumLt(s[i], x)
Greatest(s) == CHOOSE x \in { s[i] : i \in DOMAIN s } : \A i \in DOMAIN s : ~NumLt(x, s[i])
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
(* some value equal to x went, and nothing else *)
Lost(a, b, x) == \E i \in DOMAIN a : Eq(a[i], x) /\ SameBag(RemoveAt(a, i), b)

Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
RECURSIVE Up(_, _), Down(_, _)
Up(s, i) == IF i > 1 /\ Above(s[i], s[i \div 2]) THEN Up(Swap(s, i, i \div 2), i \div 2) ELSE s
Down(s, i) ==
  LET a == 2 * i b == 2 * i + 1
      c == IF b <= Len(s) /\ ~Above(s[a], s[b]) THEN b ELSE a
  IN IF a > Len(s) THEN s
     ELSE IF Above(s[c], s[i]) THEN Down(Swap(s, i, c), c) ELSE s
AlgIns(s, x) == Up(Append(s, x), Len(s) + 1)
First(s, x) == CHOOSE i \in DOMAIN s : Eq(s[i], x) /\ \A j \in 1..(i - 1) : ~Eq(s[j], x)
AlgDel(s, x) ==
  IF ~Has(s, x) THEN s
  ELSE LET i == First(s, x)
           n == Len(s)
           m == SubSeq([s EXCEPT ![i] = s[n]], 1, n - 1)
       IN IF i = n THEN m ELSE Up(Down(m, i), i)

ItemErr(x) == IF x.t = "none" THEN "ValueError" ELSE "TypeError"
BadIn(op) == { i \in DOMAIN op.xs : ~Number(op.xs[i]) }
FirstBad(op) == op.xs[CHOOSE i \in BadIn(op) : \A j \in BadIn(op) : i <= j]
(* m: how the contents change: "" not at all, "bag" to the values in s,      *)
(* "one" they lose a value equal to s[1], "gone"                             *)
Ans(m, s, r, wn) == [m |-> m, s |-> s, res |-> r, warn |-> wn]
Take(s, x) == IF Has(s, x) THEN Ans("one", <<x>>, RNone, "") ELSE Ans("", s, RNone, "UserWarning")
Judge(v, op) ==
  IF op.op = "new" THEN
    IF op.f = "noniter" THEN Ans("", <<>>, RExc("TypeError"), "")
    ELSE IF op.f = "obj" THEN Ans("bag", v[op.a], RNone, "")
    ELSE IF BadIn(op) # {} THEN Ans("", <<>>, RExc(ItemErr(FirstBad(op))), "")
    ELSE Ans("bag", op.xs, RNone, "")
  ELSE
  LET s == v[op.o] IN
  CASE op.op = "insert" -> IF ~Number(op.x) THEN Ans("", s, RExc(ItemErr(op.x)), "")
                           ELSE Ans("bag", Append(s, op.x), RNone, "")
    [] op.op = "remove" -> IF ~Number(op.x) THEN Ans("", s, RNone, "UserWarning") ELSE Take(s, op.x)
    [] op.op = "remove_min" -> IF s = <<>> THEN Ans("", s, RExc("IndexError"), "") ELSE Take(s, Least(s))
    [] op.op = "remove_max" -> IF s = <<>> THEN Ans("", s, RExc("IndexError"), "") ELSE Take(s, Greatest(s))
    [] op.op = "min" -> Ans("", s, IF s = <<>> THEN RExc("IndexError") ELSE RVal(Least(s)), "")
    [] op.op = "max" -> Ans("", s, IF s = <<>> THEN RExc("IndexError") ELSE RVal(Greatest(s)), "")
    [] op.op = "contains" -> Ans("", s, RBool(Number(op.x) /\ Has(s, op.x)), "")
    [] op.op = "len" -> Ans("", s, RInt(Len(s)), "")
    [] op.op = "is_empty" -> Ans("", s, RBool(s = <<>>), "")
    [] op.op \in {"iter", "to_list"} -> Ans("", s, RList(s), "")
    [] op.op = "clear" -> Ans("bag", <<>>, RNone, "")
    [] op.op = "drop" -> Ans("gone", <<>>, RNone, "")
Rejected(r) == r.tag = "exc"
Muts == {"insert", "remove", "remove_min", "remove_max"}
Alg(s, op) == CASE op.op = "insert" -> AlgIns(s, op.x)
                [] op.op = "remove" -> AlgDel(s, op.x)
                [] op.op = "remove_min" -> IF s = <<>> THEN s ELSE AlgDel(s, Least(s))
                [] op.op = "remove_max" -> IF s = <<>> THEN s ELSE AlgDel(s, Greatest(s))
                [] op.op = "clear" -> <<>>
                [] OTHER -> s

(* the heap drawn as a binary tree: the i-th value over values 2i and 2i+1 *)
RECURSIVE AsTree(_, _)
AsTree(s, i) == IF i > Len(s) THEN Nil ELSE Node(s[i], 0, AsTree(s, 2 * i), AsTree(s, 2 * i + 1))
=============================================================================
