------------------------------ MODULE CatTrace ------------------------------
EXTENDS Cat, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, s
Rec == Recs[r]
Files == FileMap(Rec.files)
JInit == r \in 1..Len(Recs) /\ s = Start(Recs[r].args, Recs[r].stdin)
JNext == s.todo # <<>> /\ s' = Step(s, Files) /\ UNCHANGED r
Ok == s.todo = <<>> => /\ "fatal" \notin DOMAIN Rec
                       /\ Rec.out = s.out
                       /\ (Rec.rc = 0) = ~s.failed
                       /\ (Rec.err = <<>>) = ~s.failed
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> [want_len |-> Len(s.out), failed |-> s.failed]]))
=============================================================================
