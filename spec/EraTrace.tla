------------------------------- MODULE EraTrace -----------------------------
EXTENDS Era, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, done
Rec == Recs[r]
JInit == r \in 1..Len(Recs) /\ done = FALSE
JNext == ~done /\ done' = TRUE /\ UNCHANGED r
Fields == { "offset", "startdate", "enddate", "name", "format" }
Right == IF Good(Rec.s) THEN /\ ~Rec.err
                             /\ ("reverse" \in DOMAIN Rec => Rec.reverse = EraOf(Rec.s).reverse)
                             /\ \A f \in Fields \cap DOMAIN Rec : Rec[f] = EraOf(Rec.s)[f]
         ELSE Rec.err
Ok == done => "fatal" \notin DOMAIN Rec /\ Right
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> [good |-> Good(Rec.s)]]))
=============================================================================
