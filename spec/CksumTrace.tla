----------------------------- MODULE CksumTrace -----------------------------
EXTENDS Cksum, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, s
Rec == Recs[r]
\* a record may be of one file x of Rec.zeros zero bytes, or of repeated blocks
JInit == r \in 1..Len(Recs) /\ s = IF "zeros" \in DOMAIN Recs[r]
                                   THEN [Start(<<>>, <<>>) EXCEPT !.todo = <<>>, !.out = ZerosLine(Table, Recs[r].zeros, << 32, 120 >>)]
                                   ELSE IF "segs" \in DOMAIN Recs[r]
                                   THEN [Start(<<>>, <<>>) EXCEPT !.todo = <<>>, !.out = SegsLine(Table, Recs[r].segs, << 32, 120 >>)]
                                   ELSE Start(Recs[r].args, Recs[r].stdin)
JNext == s.todo # <<>> /\ s' = Step(Table, s, FileMap(Rec.files)) /\ UNCHANGED r
Ok == s.todo = <<>> => /\ "fatal" \notin DOMAIN Rec
                       /\ Rec.out = s.out
                       /\ (Rec.rc = 0) = ~s.failed
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> [want |-> s.out, failed |-> s.failed]]))
=============================================================================
