------------------------------- MODULE ContMC ------------------------------
(* Exhaustive exploration of one container of kind Kind (and a second one it *)
(* must not share anything with).                                            *)
EXTENDS Containers, Json
CONSTANTS Kind, MaxLen, Prios
VARIABLES w, path
vars == <<w, path>>

A == Num(1)
B == [t |-> "s", v |-> <<97, 10>>, p |-> "str"]
Blank == [op |-> "", o |-> "a", ki |-> Kind, ct |-> "absent", cap |-> 0, x |-> NoItem,
          pt |-> "absent", p |-> NoItem, f |-> ""]
Op(n) == [Blank EXCEPT !.op = n]
Caps == { [ct |-> "absent", cap |-> 0] } \cup { [ct |-> "int", cap |-> 4 * c] : c \in 0..MaxLen }
        \cup { [ct |-> "float", cap |-> q] : q \in {6, 10} }
News == { [Op("new") EXCEPT !.ct = c.ct, !.cap = c.cap] : c \in Caps }
BadNews == { [Op("new") EXCEPT !.o = "z", !.ct = t] : t \in {"none", "str", "bool", "list"} }
           \cup { [Op("new") EXCEPT !.o = "z", !.ct = t, !.cap = -1] : t \in {"int", "float"} }
Pri(q) == [t |-> "n", v |-> <<(4 * q) \div 1048576, (4 * q) % 1048576>>, p |-> "int"]

Ins == CASE Kind = "Stack" -> {"push"} [] Kind = "Queue" -> {"enqueue"}
         [] Kind = "Deque" -> {"enqueue", "append_left", "append_right"}
         [] Kind = "PriorityQueue" -> {"enqueue"}
Rem == CASE Kind = "Stack" -> {"pop"} [] Kind = "Queue" -> {"dequeue"}
         [] Kind = "Deque" -> {"dequeue", "pop_left", "pop_right"}
         [] Kind = "PriorityQueue" -> {"dequeue"}
Look == CASE Kind = "Stack" -> {"peek"} [] Kind = "Queue" -> {"top"}
          [] Kind = "Deque" -> {"top", "get_left", "get_right"}
          [] Kind = "PriorityQueue" -> {"top"}
Ps == IF Kind = "PriorityQueue" THEN { Pri(q) : q \in Prios } ELSE { NoItem }
Pt == IF Kind = "PriorityQueue" THEN "num" ELSE "absent"
Ops ==  { [Op(f) EXCEPT !.x = x, !.p = p, !.pt = Pt] : f \in Ins, x \in {A, B}, p \in Ps }
   \cup { [Op(f) EXCEPT !.x = x, !.p = CHOOSE p \in Ps : TRUE, !.pt = Pt] : f \in Ins, x \in {NoItem, ExtraItem} }
   \cup (IF Kind = "PriorityQueue" THEN { [Op("enqueue") EXCEPT !.x = A, !.pt = t] : t \in {"str", "bool", "list"} }
                                        \cup { [Op("dequeue") EXCEPT !.f = "low"] } ELSE {})
   \cup { Op(f) : f \in Rem \cup Look \cup {"len", "is_empty", "is_full", "clear"} }
   \cup { [Op(f) EXCEPT !.o = "b", !.x = A, !.p = CHOOSE p \in Ps : TRUE, !.pt = Pt] : f \in Ins }
   \cup { [Op(f) EXCEPT !.o = "b"] : f \in Rem }
   \cup BadNews

Start(c) == Apply(Apply([o \in {} |-> 0], c, NoItem).w, [Op("new") EXCEPT !.o = "b"], NoItem).w
Init == \E c \in News : /\ w = Start(c)
                        /\ path = << c, [Op("new") EXCEPT !.o = "b"] >>
Bound(v) == Len(v["a"].s) <= MaxLen /\ Len(v["b"].s) <= 1
Next == \E op \in Ops :
   LET r == Apply(w, op, op.p) IN
     /\ Bound(r.w)
     /\ w' = r.w
     /\ path' = Append(path, op)
Spec == Init /\ [][Next]_vars
View == w
EmitState ==
  LET loops == { op \in Ops : Apply(w, op, op.p).w = w }
      steps == { op \in Ops \ loops : Bound(Apply(w, op, op.p).w) }
  IN PrintT("STATE " \o ToJson([pre |-> path, loops |-> loops, steps |-> steps, tails |-> {}]))

(* ---- laws --------------------------------------------------------------- *)
Capacity == \A o \in DOMAIN w : w[o].cap # -1 => Len(w[o].s) <= w[o].cap
Frame == \A op \in Ops : LET r == Apply(w, op, op.p) IN
   /\ \A o \in DOMAIN w \ {op.o} : r.w[o] = w[o]
   /\ Rejected(r.res) => r.w = w
   /\ DOMAIN r.w = DOMAIN w /\ \A o \in DOMAIN w : r.w[o].cap = w[o].cap
Service ==
   LET s == w["a"].s n == Len(s) IN
   /\ Kind = "Stack" /\ ~Full(w["a"]) => \A x \in {A, B} :
        LET u == Apply(w, [Op("push") EXCEPT !.x = x], NoItem).w
        IN Apply(u, Op("pop"), NoItem) = Do(w, RVal(Stored(x)), "")
   /\ Kind = "PriorityQueue" /\ n > 0 => \A low \in BOOLEAN :
        LET i == Serves(s, low) IN
          /\ \A j \in 1..n : IF low THEN ~Lt(s[j].p, s[i].p) ELSE ~Lt(s[i].p, s[j].p)
          /\ \A j \in 1..(i - 1) : s[j].p.v # s[i].p.v
   /\ Kind \in {"Queue", "Deque"} /\ n > 0 /\ ~Full(w["a"]) => \A x \in {A, B} :
        LET u == Apply(w, [Op("enqueue") EXCEPT !.x = x], NoItem).w
        IN Apply(u, Op("dequeue"), NoItem).res = RVal(s[n].x)
=============================================================================
