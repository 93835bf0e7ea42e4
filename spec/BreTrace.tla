------------------------------ MODULE BreTrace ------------------------------
(* Each record: an expression, strings, and what the code answered for them
   (twice, the second time in reverse order).                                 *)
EXTENDS Bre, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, l
Rec == Recs[r]
JInit == r \in 1..Len(Recs) /\ l = 0
JNext == /\ "fatal" \notin DOMAIN Rec
         /\ l < Len(Rec.strs)
         /\ l' = l + 1 /\ UNCHANGED r
Expected == Matches(Rec.re, Rec.strs[l])
Ok == /\ "fatal" \notin DOMAIN Rec
      /\ l > 0 => (Rec.res[l] = 1) = Expected /\ Rec.again[l] = Rec.res[l]
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> <<l, IF l = 0 THEN <<>> ELSE Rec.strs[l]>>]))
=============================================================================
