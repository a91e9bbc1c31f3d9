---------------------------- MODULE Containers -----------------------------
(* Stack, Queue, Deque and PriorityQueue with an optional capacity.          *)
(* An object is [kind, cap, s]: cap = -1 means unbounded; s is the sequence  *)
(* of its elements [x, p], for a Stack from the bottom to the top, for the   *)
(* others from the left (newest enqueued) to the right (oldest).             *)
EXTENDS Items, TLC

(* capacities are given in quarters; Python rounds halves to the even side *)
Round(q) == LET d == q \div 4 r == q % 4
            IN IF r < 2 THEN d ELSE IF r > 2 THEN d + 1 ELSE IF d % 2 = 0 THEN d ELSE d + 1
CapErr(op) == CASE op.ct \in {"none", "str", "bool", "list"} -> "TypeError"
                [] op.ct \in {"int", "float"} /\ op.cap < 0 -> "ValueError"
                [] OTHER -> ""
CapOf(op) == IF op.ct \in {"inf", "absent"} THEN -1 ELSE Round(op.cap)

El(x, p) == [x |-> x, p |-> p]
Put(w, o, v) == [m \in DOMAIN w \cup {o} |-> IF m = o THEN v ELSE w[m]]
Set(w, o, s) == [w EXCEPT ![o].s = s]
Full(v) == v.cap # -1 /\ Len(v.s) = v.cap
DropLast(s) == IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
DropFirst(s) == IF s = <<>> THEN s ELSE Tail(s)

Do(w, r, warn) == [w |-> w, res |-> r, warn |-> warn]
Reject(w, e) == Do(w, RExc(e), "")
UW == "UserWarning"

PushLeft(w, o, e) ==     \* at the left end; the right end makes room
  LET v == w[o]
      t == IF Full(v) THEN DropLast(v.s) ELSE v.s
  IN Do(IF v.cap = 0 THEN w ELSE Set(w, o, <<e>> \o t), RNone, IF Full(v) THEN UW ELSE "")
PushRight(w, o, e) ==
  LET v == w[o]
      t == IF Full(v) THEN DropFirst(v.s) ELSE v.s
  IN Do(IF v.cap = 0 THEN w ELSE Set(w, o, Append(t, e)), RNone, IF Full(v) THEN UW ELSE "")
PopLeft(w, o) == LET s == w[o].s IN
  IF s = <<>> THEN Do(w, RNone, UW) ELSE Do(Set(w, o, Tail(s)), RVal(s[1].x), "")
PopRight(w, o) == LET s == w[o].s IN
  IF s = <<>> THEN Do(w, RNone, UW) ELSE Do(Set(w, o, DropLast(s)), RVal(s[Len(s)].x), "")

(* the element a priority queue serves next: among those of the highest (or  *)
(* lowest) priority, the one enqueued last                                   *)
Serves(s, low) ==
  LET best(i) == \A j \in DOMAIN s : IF low THEN Le(s[i].p, s[j].p) ELSE Le(s[j].p, s[i].p)
      B == { i \in DOMAIN s : best(i) }
  IN CHOOSE i \in B : \A j \in B : i <= j
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(* p: the priority the element was given: the one asked for, or any whole    *)
(* number from 0 to 100 when none was                                        *)
PrioErr(op) == IF op.pt \in {"str", "bool", "list"} THEN "TypeError" ELSE ""
Whole(p) == p.t = "n" /\ p.p = "int" /\ p.v[1] = 0 /\ p.v[2] <= 400
PrioOk(op, p) == IF op.pt = "absent" THEN Whole(p) ELSE p = op.p

Apply(w, op, p) ==
  IF op.op = "new" THEN
    IF CapErr(op) # "" THEN Reject(w, CapErr(op))
    ELSE Do(Put(w, op.o, [kind |-> op.ki, cap |-> CapOf(op), s |-> <<>>]), RNone, "")
  ELSE
  LET v == w[op.o]
      s == v.s
      n == Len(s)
      e == El(Stored(op.x), IF v.kind = "PriorityQueue" THEN p ELSE NoItem)
      right == IF v.kind = "Stack" \/ op.op \in {"top", "get_right"} THEN n ELSE 1
  IN
  CASE op.op = "push" ->
         IF Full(v) THEN Reject(w, "OverflowError")
         ELSE IF NoValue(op.x) THEN Reject(w, BadItemErr(op.x))
         ELSE Do(Set(w, op.o, Append(s, e)), RNone, "")
    [] op.op \in {"enqueue", "append_left"} ->
         IF NoValue(op.x) THEN Reject(w, BadItemErr(op.x))
         ELSE IF v.kind = "PriorityQueue" /\ PrioErr(op) # "" THEN Reject(w, PrioErr(op))
         ELSE PushLeft(w, op.o, e)
    [] op.op = "append_right" ->
         IF NoValue(op.x) THEN Reject(w, BadItemErr(op.x)) ELSE PushRight(w, op.o, e)
    [] op.op \in {"pop", "pop_right"} -> PopRight(w, op.o)
    [] op.op = "pop_left" -> PopLeft(w, op.o)
    [] op.op = "dequeue" ->
         IF v.kind # "PriorityQueue" THEN PopRight(w, op.o)
         ELSE IF n = 0 THEN Do(w, RNone, UW)
         ELSE LET i == Serves(s, op.f = "low") IN Do(Set(w, op.o, Without(s, i)), RVal(s[i].x), "")
    [] op.op \in {"peek", "top", "get_left", "get_right"} ->
         IF n = 0 THEN Reject(w, "IndexError") ELSE Do(w, RVal(s[right].x), "")
    [] op.op = "len" -> Do(w, RInt(n), "")
    [] op.op = "is_empty" -> Do(w, RBool(n = 0), "")
    [] op.op = "is_full" -> Do(w, RBool(Full(v)), "")
    [] op.op = "clear" -> Do(Set(w, op.o, <<>>), RNone, "")
    [] op.op = "drop" -> Do([m \in DOMAIN w \ {op.o} |-> w[m]], RNone, "")
Rejected(r) == r.tag = "exc"
=============================================================================
