------------------------------ MODULE KillTrace -----------------------------
EXTENDS Kill, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, done
Rec == Recs[r]
JInit == r \in 1..Len(Recs) /\ done = FALSE
JNext == ~done /\ done' = TRUE /\ UNCHANGED r
\* procs: the processes of the world and the signals each was found to have got
TraceKind(p) == LET at == { i \in 1..Len(Rec.procs) : Rec.procs[i].p = p } IN IF at = {} THEN "none" ELSE Rec.procs[CHOOSE i \in at : TRUE].kind
Sig == Meaning(Rec.args).sig
\* signals below 34 that are pending already are not queued again
Got(q) == LET n == Wanted(Rec.args, q.p)
          IN /\ \A i \in 1..Len(q.got) : q.got[i] = Sig
             /\ (Len(q.got) = 0) = (n = 0)
             /\ Len(q.got) <= n
             /\ Sig \in 34..64 => Len(q.got) = n
Right == /\ \A i \in 1..Len(Rec.procs) : Got(Rec.procs[i])
         /\ (Rec.rc = 0) = Success(Rec.args)
         /\ Rec.out = <<>>
Ok == done => "fatal" \notin DOMAIN Rec /\ Right
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> [meaning |-> Meaning(Rec.args), success |-> Success(Rec.args), wanted |-> [i \in 1..Len(Rec.procs) |-> Wanted(Rec.args, Rec.procs[i].p)]]]))
=============================================================================
