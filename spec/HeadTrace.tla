----------------------------- MODULE HeadTrace ------------------------------
EXTENDS Head, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, s
Rec == Recs[r]
JInit == r \in 1..Len(Recs) /\ s = Start(Recs[r].args, Recs[r].stdin)
JNext == s.todo # <<>> /\ s' = Step(s, FileMap(Rec.files)) /\ UNCHANGED r
Ok == s.todo = <<>> => /\ "fatal" \notin DOMAIN Rec
                       /\ Rec.out \in s.outs
                       /\ (Rec.rc = 0) = ~s.failed
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> [lens |-> { Len(o) : o \in s.outs }, failed |-> s.failed]]))
=============================================================================
