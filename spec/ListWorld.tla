----------------------------- MODULE ListWorld -----------------------------
(* What a population of LinkedList ("LL"), DoublyLinkedList ("DLL") and      *)
(* CircularLinkedList ("CLL") objects means: each live object is a sequence  *)
(* of items, and each public operation is a function from the population and *)
(* the operation to its result and the next population.                      *)
EXTENDS Items, TLC

(* ---- indices ---------------------------------------------------------- *)
(* how an index argument is rejected ("" when it is not) *)
IdxErr(kind, n, op, neg, slice) ==
  CASE op.ti = "slice" -> IF slice THEN "" ELSE "IndexError"
    [] op.ti # "int" -> "TypeError"
    [] op.i < 0 /\ ~neg -> "IndexError"
    [] kind # "CLL" /\ (op.i < -n \/ op.i > n) -> "IndexError"
    [] OTHER -> ""

InsertAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
RemoveAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
RotL(s, d) == IF s = <<>> THEN s
              ELSE LET k == d % Len(s) IN SubSeq(s, k + 1, Len(s)) \o SubSeq(s, 1, k)
RotR(s, d) == IF s = <<>> THEN s ELSE RotL(s, Len(s) - (d % Len(s)))

(* Python's slice [a:b:c]; 999999 stands for an omitted bound *)
Omitted == 999999
SliceIdx(n, a, b, c) ==
  LET step == IF c = Omitted THEN 1 ELSE c
      lo == IF step > 0 THEN 0 ELSE -1
      hi == IF step > 0 THEN n ELSE n - 1
      clamp(x) == IF x < 0 THEN Max2(x + n, lo) ELSE Min2(x, hi)
      start == IF a = Omitted THEN (IF step > 0 THEN lo ELSE hi) ELSE clamp(a)
      stop == IF b = Omitted THEN (IF step > 0 THEN hi ELSE lo) ELSE clamp(b)
      cnt == IF step > 0
             THEN (IF stop > start THEN (stop - start + step - 1) \div step ELSE 0)
             ELSE (IF start > stop THEN (start - stop - step - 1) \div (-step) ELSE 0)
  IN [k \in 1..cnt |-> start + (k - 1) * step]
Slice(s, a, b, c) == LET ix == SliceIdx(Len(s), a, b, c)
                     IN [k \in DOMAIN ix |-> s[ix[k] + 1]]

(* ---- comparisons ------------------------------------------------------ *)
(* Two lists are compared element by element: a < b when b has an opposing   *)
(* element for every element of a, none of which is exceeded, and at least   *)
(* one is larger (or there are more of them).                                *)
Rel(op, x, y) == CASE op = "lt" -> Lt(x, y) [] op = "le" -> Le(x, y)
                   [] op = "gt" -> Lt(y, x) [] op = "ge" -> Le(y, x)
Cmp(op, s, t) ==
  LET m == Min2(Len(s), Len(t))
      Diff == { i \in 1..m : ~Eq(s[i], t[i]) }
      same == Len(s) = Len(t) /\ Diff = {}
      Unordered == { i \in Diff : ~Comparable(s[i], t[i]) }
      Fail == { i \in Diff \ Unordered : ~Rel(op, s[i], t[i]) }
      upto(S) == IF S = {} THEN m + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
      stop == upto(Fail)
  IN CASE op = "eq" -> RBool(same)
       [] op = "ne" -> RBool(~same)
       [] OTHER ->
          IF upto(Unordered) < stop THEN RExc("TypeError")
          ELSE LET good == Fail = {}
               IN CASE op = "lt" -> RBool(good /\ IF Diff = {} THEN Len(s) < Len(t)
                                                  ELSE Len(s) <= Len(t))
                    [] op = "gt" -> RBool(good /\ IF Diff = {} THEN Len(t) < Len(s)
                                                  ELSE Len(t) <= Len(s))
                    [] op = "le" -> RBool(good /\ Len(s) <= Len(t))
                    [] op = "ge" -> RBool(good /\ Len(t) <= Len(s))
CmpOps == {"eq", "ne", "lt", "le", "gt", "ge"}

(* may an operation of a `kind` object take an object of kind k as its peer? *)
PeerOk(kind, k) == kind = k \/ (kind = "LL" /\ k \in {"DLL", "CLL"})

(* ---- the operations --------------------------------------------------- *)
FirstBad(xs) == LET B == { i \in DOMAIN xs : NoValue(xs[i]) }
                IN CHOOSE i \in B : \A j \in B : i <= j
HasBad(xs) == \E i \in DOMAIN xs : NoValue(xs[i])

Put(w, o, kind, s) == [m \in DOMAIN w \cup {o} |-> IF m = o THEN [kind |-> kind, s |-> s] ELSE w[m]]
Set(w, o, s) == [w EXCEPT ![o].s = s]

Keep(w, r) == [w |-> w, res |-> r]
Reject(w, e) == Keep(w, RExc(e))

New(w, op) ==   \* op.o := kind(op.ki) built from a literal iterable or from object op.a
  IF op.f = "noniter" THEN Reject(w, "TypeError")
  ELSE IF op.f # "obj" /\ HasBad(op.xs) THEN Reject(w, BadItemErr(op.xs[FirstBad(op.xs)]))
  ELSE [w |-> Put(w, op.o, op.ki, IF op.f = "obj" THEN w[op.a].s ELSE StoredAll(op.xs)),
        res |-> RNone]

Apply(w, op) ==
  IF op.op = "new" THEN New(w, op) ELSE
  LET kind == w[op.o].kind
      s == w[op.o].s
      n == Len(s)
      cll == kind = "CLL"
      ie == IdxErr(kind, n, op, FALSE, FALSE)
      At(m) == IF cll THEN op.i % m ELSE op.i
  IN
  CASE op.op \in {"add_front", "add_end"} ->
         IF NoValue(op.x) THEN Reject(w, BadItemErr(op.x))
         ELSE [w |-> Set(w, op.o, IF op.op = "add_front" THEN <<Stored(op.x)>> \o s
                                   ELSE Append(s, Stored(op.x))), res |-> RNone]
    [] op.op = "insert" ->
         IF ie # "" THEN Reject(w, ie)
         ELSE IF NoValue(op.x) THEN Reject(w, BadItemErr(op.x))
         ELSE [w |-> Set(w, op.o, InsertAt(s, At(n + 1), Stored(op.x))), res |-> RNone]
    [] op.op = "extend" ->
         IF op.f = "plain" \/ ~PeerOk(kind, w[op.a].kind) THEN Reject(w, "TypeError")
         ELSE [w |-> Set(w, op.o, s \o w[op.a].s), res |-> RNone]
    [] op.op = "set" ->
         IF ie # "" THEN Reject(w, ie)
         ELSE IF n = 0 \/ (~cll /\ op.i = n) THEN Reject(w, "IndexError")
         ELSE IF NoValue(op.x) THEN Reject(w, BadItemErr(op.x))
         ELSE [w |-> Set(w, op.o, [s EXCEPT ![At(n) + 1] = Stored(op.x)]), res |-> RNone]
    [] op.op = "del" ->
         IF ie # "" THEN Reject(w, ie)
         ELSE IF cll /\ n = 0 THEN Keep(w, RNone)
         ELSE IF ~cll /\ op.i = n THEN Reject(w, "IndexError")
         ELSE [w |-> Set(w, op.o, RemoveAt(s, At(n))), res |-> RNone]
    [] op.op = "remove_front" ->
         [w |-> Set(w, op.o, IF n = 0 THEN s ELSE Tail(s)), res |-> RNone]
    [] op.op = "remove_end" ->
         [w |-> Set(w, op.o, IF n = 0 THEN s ELSE SubSeq(s, 1, n - 1)), res |-> RNone]
    [] op.op = "remove" ->
         IF op.f \notin {"all", "first"} THEN Reject(w, "TypeError")
         ELSE IF NoValue(op.x) THEN Reject(w, BadItemErr(op.x))
         ELSE LET D == Count(s, op.x)
                  f == CHOOSE i \in D : \A j \in D : i <= j
                  keep(y) == ~Eq(y, op.x)
              IN [w |-> Set(w, op.o, IF D = {} THEN s
                                     ELSE IF op.f = "all" THEN SelectSeq(s, keep)
                                     ELSE RemoveAt(s, f - 1)), res |-> RNone]
    [] op.op = "drop" -> [w |-> [m \in DOMAIN w \ {op.o} |-> w[m]], res |-> RNone]
    [] op.op = "clear" -> [w |-> Set(w, op.o, <<>>), res |-> RNone]
    [] op.op = "split" ->
         IF ie # "" THEN Reject(w, ie)
         ELSE LET k == IF cll THEN (IF n = 0 THEN 0 ELSE op.i % n) ELSE op.i
                  u == SubSeq(s, 1, k)
                  v == SubSeq(s, k + 1, n)
              IN [w |-> Put(Put(w, op.b, kind, u), op.c, kind, v), res |-> RPair(kind, u, v)]
    [] op.op \in {"rotate_left", "rotate_right"} ->
         IF op.f \notin {"in", "out"} THEN Reject(w, "TypeError")
         ELSE IF op.ti # "int" THEN Reject(w, "TypeError")
         ELSE IF op.i < 0 THEN Reject(w, "ValueError")
         ELSE LET t == IF op.op = "rotate_left" THEN RotL(s, op.i) ELSE RotR(s, op.i)
              IN IF op.f = "in" THEN [w |-> Set(w, op.o, t), res |-> RNone]
                 ELSE [w |-> Put(w, op.b, kind, t), res |-> RObj(kind, t)]
    [] op.op = "reverse" -> [w |-> Put(w, op.b, kind, Reverse(s)), res |-> RObj(kind, Reverse(s))]
    [] op.op = "copy" -> [w |-> Put(w, op.b, kind, s), res |-> RObj(kind, s)]
    [] op.op = "get" ->
         LET e == IdxErr(kind, n, op, ~cll, ~cll) IN
         IF e # "" THEN Reject(w, e)
         ELSE IF op.ti = "slice"
              THEN IF op.k = 0 THEN Reject(w, "ValueError")
                   ELSE LET t == Slice(s, op.i, op.j, op.k)
                        IN [w |-> Put(w, op.b, kind, t), res |-> RObj(kind, t)]
         ELSE IF n = 0 \/ (~cll /\ op.i = n) THEN Reject(w, "IndexError")
         ELSE Keep(w, RVal(s[(IF op.i < 0 THEN op.i + n ELSE At(n)) + 1]))
    [] op.op = "contains" -> Keep(w, RBool(Count(s, op.x) # {}))
    [] op.op = "count" -> Keep(w, RInt(LET D == Count(s, op.x) IN IF D = {} THEN 0 ELSE
                                         Len(SelectSeq(s, LAMBDA y : Eq(y, op.x)))))
    [] op.op = "len" -> Keep(w, RInt(n))
    [] op.op = "is_empty" -> Keep(w, RBool(n = 0))
    [] op.op \in {"to_list", "iter"} -> Keep(w, RList(s))
    [] op.op \in CmpOps ->
         IF op.f = "plain" \/ kind # w[op.a].kind THEN Reject(w, "TypeError")
         ELSE Keep(w, Cmp(op.op, s, w[op.a].s))

Rejected(r) == r.tag = "exc"
(* operations that answer without an effect on what exists *)
Queries == {"get", "contains", "count", "len", "is_empty", "to_list", "iter"} \cup CmpOps
=============================================================================
