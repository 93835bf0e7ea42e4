------------------------------ MODULE CmpTrace ------------------------------
EXTENDS Cmp, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, done
Rec == Recs[r]
JInit == r \in 1..Len(Recs) /\ done = FALSE
JNext == ~done /\ done' = TRUE /\ UNCHANGED r
Want == IF "skip" \in DOMAIN Rec THEN OutcomeAfter(Rec.skip, Rec.args, FileMap(Rec.files), Rec.stdin)
        ELSE Outcome(Rec.args, FileMap(Rec.files), Rec.stdin)
Ok == done => /\ "fatal" \notin DOMAIN Rec
              /\ LET w == Want IN
                 /\ Rec.rc = w.rc
                 /\ Rec.out = w.out
                 /\ IF w.eof # <<>> THEN HasInfix(Rec.err, w.eof)
                    ELSE w.rc = 2 \/ Rec.err = <<>>
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> Want]))
=============================================================================
