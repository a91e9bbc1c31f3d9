----------------------------- MODULE SkipWorld -----------------------------
(* Skip lists. An object is its sequence of levels lv: lv[1] holds every     *)
(* element, lv[i+1] a subsequence of lv[i]; no level but the first is empty. *)
(* The -oo sentinel in front of every level is left out.                     *)
EXTENDS Items, TLC

NumLt(a, b) == LexLt(a.v, b.v)
Less(s, x) == { i \in DOMAIN s : NumLt(s[i], x) }
Has(s, x) == \E i \in DOMAIN s : Eq(s[i], x)
(* s is sorted, so the number of smaller elements is where x goes *)
Ins(s, x) == LET k == Len(SelectSeq(s, LAMBDA y : NumLt(y, x)))
             IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
Out(s, x) == SelectSeq(s, LAMBDA y : ~Eq(y, x))
Base(lv) == lv[1]

Insert(lv, x, h) ==   \* x reaches h levels; new ones appear on top
  [i \in 1..Max2(Len(lv), h) |-> IF i > Len(lv) THEN <<x>> ELSE IF i <= h THEN Ins(lv[i], x) ELSE lv[i]]
Remove(lv, x) ==
  LET m == [i \in DOMAIN lv |-> Out(lv[i], x)]
      k == Len(SelectSeq(m, LAMBDA s : s # <<>>))     \* levels only empty from the top
  IN SubSeq(m, 1, Max2(1, k))
Height(lv, x) == Len(SelectSeq(lv, LAMBDA s : Has(s, x)))

Sorted(s) == \A i \in 1..(Len(s) - 1) : NumLt(s[i], s[i + 1])
Nested(lv) == \A i \in 1..(Len(lv) - 1) : \A j \in DOMAIN lv[i + 1] :
                 \E k \in DOMAIN lv[i] : lv[i][k] = lv[i + 1][j]
WellFormed(lv) == /\ Len(lv) >= 1
                  /\ \A i \in DOMAIN lv : Sorted(lv[i]) /\ (i > 1 => lv[i] # <<>>)
                  /\ Nested(lv)

(* how the code looks for x: from the top level rightwards, then down *)
Last(s, x, from) == LET D == { i \in from..Len(s) : ~NumLt(x, s[i]) }
                    IN IF D = {} THEN from - 1 ELSE CHOOSE i \in D : \A j \in D : j <= i
Pos(s, y) == CHOOSE i \in DOMAIN s : s[i] = y
RECURSIVE Search(_, _, _, _)
Search(lv, x, level, from) ==        \* from: first index to look at (0 before: sentinel)
  LET p == Last(lv[level], x, from)
  IN IF p > 0 /\ Eq(lv[level][p], x) THEN TRUE
     ELSE IF level = 1 THEN FALSE
     ELSE Search(lv, x, level - 1, IF p = 0 THEN 1 ELSE Pos(lv[level - 1], lv[level][p]) + 1)
Found(lv, x) == Search(lv, x, Len(lv), 1)

Number(x) == x.t = "n" /\ x.p # "bool"
ValErr(x) == IF x.t = "none" THEN "ValueError" ELSE "TypeError"
Sentinel(x) == Infinite(x) /\ x.v[1] < 0
IdxErr(n, op) == CASE op.ti = "slice" -> "IndexError" [] op.ti # "int" -> "TypeError"
                   [] op.i < 0 \/ op.i >= n -> "IndexError" [] OTHER -> ""
Put(w, o, v) == [m \in DOMAIN w \cup {o} |-> IF m = o THEN v ELSE w[m]]
Do(w, r) == [w |-> w, res |-> r]

RECURSIVE Distinct(_, _)
Distinct(xs, acc) == IF xs = <<>> THEN acc
                     ELSE Distinct(Tail(xs), IF Has(acc, Head(xs)) \/ Sentinel(Head(xs)) THEN acc ELSE Ins(acc, Head(xs)))
FirstBad(xs) == LET B == { i \in DOMAIN xs : ~Number(xs[i]) } IN CHOOSE i \in B : \A j \in B : i <= j

(* h: how many levels the inserted value reaches (a coin decides).           *)
(* On "new" from a literal only the first level is determined.               *)
Apply(w, op, h) ==
  IF op.op = "new" THEN
    IF op.f = "noniter" THEN Do(w, RExc("TypeError"))
    ELSE IF op.f = "obj" THEN Do(Put(w, op.o, <<Base(w[op.a])>>), RNone)
    ELSE IF \E i \in DOMAIN op.xs : ~Number(op.xs[i]) THEN Do(w, RExc(ValErr(op.xs[FirstBad(op.xs)])))
    ELSE Do(Put(w, op.o, <<Distinct(op.xs, <<>>)>>), RNone)
  ELSE
  LET lv == w[op.o]
      s == lv[1]
      n == Len(s)
      ie == IdxErr(n, op)
  IN
  CASE op.op = "insert" ->
         IF ~Number(op.x) THEN Do(w, RExc(ValErr(op.x)))
         ELSE IF Sentinel(op.x) \/ Has(s, op.x) THEN Do(w, RNone)
         ELSE Do([w EXCEPT ![op.o] = Insert(lv, op.x, h)], RNone)
    [] op.op = "remove" ->
         IF ~Number(op.x) \/ ~Has(s, op.x) THEN Do(w, RNone)
         ELSE Do([w EXCEPT ![op.o] = Remove(lv, op.x)], RNone)
    [] op.op = "del" ->
         IF ie # "" THEN Do(w, RExc(ie)) ELSE Do([w EXCEPT ![op.o] = Remove(lv, s[op.i + 1])], RNone)
    [] op.op = "get" -> IF ie # "" THEN Do(w, RExc(ie)) ELSE Do(w, RVal(s[op.i + 1]))
    [] op.op = "contains" -> Do(w, RBool(Number(op.x) /\ Has(s, op.x)))
    [] op.op = "len" -> Do(w, RInt(n))
    [] op.op = "is_empty" -> Do(w, RBool(n = 0))
    [] op.op = "height" -> Do(w, RInt(Len(lv)))
    [] op.op \in {"iter", "to_list"} -> Do(w, RList(s))
    [] op.op = "clear" -> Do([w EXCEPT ![op.o] = << <<>> >>], RNone)
    [] op.op = "drop" -> Do([m \in DOMAIN w \ {op.o} |-> w[m]], RNone)
Rejected(r) == r.tag = "exc"
=============================================================================
