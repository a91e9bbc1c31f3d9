---------------------------- MODULE PictureTrace ----------------------------
(* Recorded pictures: [op kind .., post view, out]. Clause: picture.         *)
EXTENDS Pictures, Trace
VARIABLES h, l
vars == <<h, l>>
Init == h \in DOMAIN Hist /\ l = 1
NoView == [labels |-> <<>>, levels |-> <<>>, g |-> <<>>, b |-> <<>>]
Next ==
  /\ l <= Len(Events(h))
  /\ l' = l + 1 /\ h' = h
  /\ LET e == Events(h)[l]
         p == e.post[CHOOSE k \in DOMAIN e.post : TRUE] @@ NoView
         v == [p EXCEPT !.b = Regrow(@)]
     IN Report(h, l, IF Broken(e) \/ Res(e).tag # "val" THEN {"broken"}
                     ELSE IF Res(e).l[1].v = Draw(e.op.kind, v) THEN {} ELSE {"picture"})
Spec == Init /\ [][Next]_vars
=============================================================================
