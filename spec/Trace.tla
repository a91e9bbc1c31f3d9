------------------------------- MODULE Trace -------------------------------
(* Shared plumbing of the trace-validation modules: the recorded histories   *)
(* are read from the file named by TRACE, one per line, each                 *)
(*   [id, ev : Seq([op, res, warn?, post, gone?])].                          *)
(* Fields that have their default value, and objects whose observed state is *)
(* what it was after the previous event, are left out of the file.           *)
(* Every history is one initial state; every recorded event is one step.     *)
EXTENDS Items, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE)
Res(e) == e.res @@ RNone
Warn(e) == IF "warn" \in DOMAIN e THEN e.warn ELSE ""
Gone(e) == IF "gone" \in DOMAIN e THEN { e.gone[i] : i \in DOMAIN e.gone } ELSE {}
Broken(e) == "tag" \in DOMAIN e.res /\ e.res.tag = "broken"
Events(h) == Hist[h].ev
SumLens == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE Len(Hist[i].ev) + 1 + S(i - 1)
           IN S(Len(Hist))
Report(h, l, c) == IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> h, l |-> l, c |-> c]))
Accepted == TLCGet("stats").distinct = SumLens
=============================================================================
