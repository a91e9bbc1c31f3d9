----------------------------- MODULE FailWorld ------------------------------
(* Calls that fail, and what they leave behind: nothing. A structure has its *)
(* solo record (ApartWorld); calls of the solo are mixed with failing calls, *)
(* which the solo does not have. A failing call is one that the library has  *)
(* to refuse, or one during which the user's own code (the iterable a        *)
(* structure is built from, the comparison or the text of an item) raises.   *)
(* The error reaches the caller, no other one takes its place, the structure *)
(* looks as before, and all later calls answer what they answer in the solo. *)
EXTENDS ApartWorld
Lists == {"ll", "dll", "cll"}
Stores == {"stack", "queue", "deque", "pq"}
Search == {"bst", "avl", "rb", "splay", "treap"}
Heaps == {"min", "max"}
Tries == {"trie", "radix"}
Numbers == Search \cup Heaps \cup {"skip"}
(* the calls in which the user's code raises: Boom is its error *)
Source == {"source", "late"}
Asked == {"eqin", "eqcount", "eqremove", "eqremove3", "eqfirst", "eqlist", "ltlist"}
Interrupted(k) ==
  CASE k \in Lists -> Source \cup Asked \cup {"print"}
    [] k \in Numbers -> Source
    [] k \in Stores -> {"print"}
    [] k = "tree" -> {"eqin", "print", "kids"}
    [] k = "bin" -> {"eqin", "print"}
    [] OTHER -> {}
Both == {"TypeError", "ValueError"}
(* the calls that are refused, and how *)
Refused(k) ==
  CASE k \in Lists -> [none |-> {"ValueError"}, noneat |-> {"ValueError"}, extra |-> {"TypeError"}, half |-> {"ValueError"},
                       noniter |-> {"TypeError"}, index |-> {"TypeError"}, put |-> {"TypeError"}, cut |-> {"TypeError"},
                       flag |-> {"TypeError"}, back |-> {"ValueError"}, turn |-> {"TypeError"}, peer |-> {"TypeError"},
                       than |-> {"TypeError"}]
    [] k = "skip" -> [none |-> Both, wrong |-> {"TypeError"}, half |-> Both, noniter |-> {"TypeError"}, index |-> {"TypeError"},
                      far |-> {"IndexError"}, cut |-> {"TypeError"}]
    [] k = "treap" -> [none |-> Both, wrong |-> {"TypeError"}, half |-> Both, noniter |-> {"TypeError"}, method |-> {"ValueError"},
                       named |-> {"TypeError"}, priority |-> {"TypeError"}]
    [] k \in Search -> [none |-> Both, wrong |-> {"TypeError"}, half |-> Both, noniter |-> {"TypeError"}, method |-> {"ValueError"},
                        named |-> {"TypeError"}]
    [] k \in Heaps -> [none |-> Both, wrong |-> {"TypeError"}, half |-> Both, noniter |-> {"TypeError"}]
    [] k = "pq" -> [none |-> {"ValueError"}, extra |-> {"TypeError"}, capacity |-> {"ValueError"}, text |-> {"TypeError"}, priority |-> {"TypeError"}]
    [] k = "stack" -> [none |-> {"ValueError", "OverflowError"}, extra |-> {"TypeError", "OverflowError"}, capacity |-> {"ValueError"},
                       text |-> {"TypeError"}]
    [] k \in Stores -> [none |-> {"ValueError"}, extra |-> {"TypeError"}, capacity |-> {"ValueError"}, text |-> {"TypeError"}]
    [] k = "tree" -> [child |-> {"TypeError"}, swap |-> {"TypeError"}, kidbad |-> {"TypeError"}, path |-> {"ValueError"}]
    [] k = "bin" -> [child |-> {"TypeError"}, swap |-> {"TypeError"}, half |-> {"TypeError"}, method |-> {"ValueError"}, named |-> {"TypeError"}]
    [] k \in Tries -> [none |-> Both, wrong |-> {"TypeError"}, blank |-> {"ValueError"}, ask |-> {"TypeError"}]
    [] OTHER -> [none |-> Both, wrong |-> {"TypeError"}, empty |-> {"ValueError"}, far |-> {"ValueError"}, index |-> {"TypeError"}]
(* an iteration that is given up, or left open, is no failure at all *)
Idle(k) == IF k \in Stores THEN {} ELSE {"leave", "open"}
Fails(k) == Interrupted(k) \cup DOMAIN Refused(k) \cup Idle(k)
Errors(k, c) == CASE c \in Interrupted(k) -> {"Boom"} [] c \in Idle(k) -> {} [] OTHER -> Refused(k)[c]
(* n: how often the call got to the point where it has to fail *)
Right(k, c, r) == IF r.n = 0 THEN r.s = "" /\ c \notin Source ELSE r.s \in Errors(k, c)
=============================================================================
