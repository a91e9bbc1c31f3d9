------------------------------- MODULE SkipMC ------------------------------
(* Every skip list over the values 0..Keys-1 with at most MaxH levels, with  *)
(* every outcome of the coin.                                                *)
EXTENDS SkipWorld, Json
CONSTANTS Keys, MaxH
VARIABLES w, path
Blank == [op |-> "", o |-> "a", a |-> "", ti |-> "int", i |-> 0, x |-> NoItem, xs |-> <<>>, f |-> "", h |-> 0]
Op(n) == [Blank EXCEPT !.op = n]
Vals == { IF k = 0 THEN Flt(0) ELSE Num(k) : k \in 0..(Keys - 1) }
Muts == { [Op("insert") EXCEPT !.x = x, !.h = k] : x \in Vals, k \in 1..MaxH }
   \cup { [Op("remove") EXCEPT !.x = x] : x \in Vals }
   \cup { [Op("del") EXCEPT !.i = i] : i \in -1..Keys } \cup { Op("clear") }
Asks == { [Op("get") EXCEPT !.i = i] : i \in -1..Keys }
   \cup { [Op("contains") EXCEPT !.x = x] : x \in Vals \cup {Num(0), Flt(1), Num(Keys), NoItem, NegInf} }
   \cup { [Op("remove") EXCEPT !.x = x] : x \in {NegInf, NoItem, Num(Keys), Num(-1)} }
   \cup { [Op("insert") EXCEPT !.x = x] : x \in {NoItem, NegInf, ExtraItem, [t |-> "s", v |-> <<49>>, p |-> "str"]} }
   \cup { Op(f) : f \in {"len", "is_empty", "height", "iter", "to_list"} }
   \cup { [Op(f) EXCEPT !.ti = t] : f \in {"get", "del"}, t \in {"bool", "float", "str", "none", "slice"} }
Init == w = [o \in {"a"} |-> << <<>> >>] /\ path = << Op("new") >>
Next == \E op \in Muts \cup Asks : LET r == Apply(w, op, op.h) IN
          w' = r.w /\ path' = Append(path, op)
Spec == Init /\ [][Next]_<<w, path>>
View == w
EmitState ==
  LET All == Muts \cup Asks
      loops == { op \in All : Apply(w, op, op.h).w = w }
  IN PrintT("STATE " \o ToJson([pre |-> path, loops |-> loops, steps |-> All \ loops, tails |-> {}]))
Shape == WellFormed(w["a"])
SearchFinds == \A x \in Vals : Found(w["a"], x) <=> Has(Base(w["a"]), x)
Undo == \A x \in Vals, k \in 1..MaxH : ~Has(Base(w["a"]), x) => Remove(Insert(w["a"], x, k), x) = w["a"]
Refusals == \A op \in Muts \cup Asks : LET r == Apply(w, op, op.h) IN Rejected(r.res) => r.w = w
=============================================================================
