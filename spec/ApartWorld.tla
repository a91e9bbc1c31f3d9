----------------------------- MODULE ApartWorld -----------------------------
(* Several structures used in turn. What a call on one of them answers, and  *)
(* what it makes of that structure, depends on the calls made on it alone:   *)
(* the solo record of a structure says what its k-th call answers and what   *)
(* the structure then looks like, whatever was done to others in between.    *)
(*   solo   Seq([r |-> answer, s |-> look])       pos  how many calls it had *)
EXTENDS Items
Looks(solo, pos) == IF pos = 0 THEN "" ELSE solo[pos].s
=============================================================================
