------------------------------ MODULE TestTrace -----------------------------
EXTENDS Test, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, done
Rec == Recs[r]
JInit == r \in 1..Len(Recs) /\ done = FALSE
JNext == ~done /\ done' = TRUE /\ UNCHANGED r
None == [type |-> "none", link |-> FALSE, size |-> FALSE, setgid |-> FALSE, setuid |-> FALSE]
TraceFile(n) == LET at == { i \in 1..Len(Rec.facts) : Rec.facts[i].n = n } IN IF at = {} THEN None ELSE Rec.facts[CHOOSE i \in at : TRUE].f
Want == Posix(Rec.args)
Ok == done => /\ "fatal" \notin DOMAIN Rec
              /\ Rec.rc = Want /\ Rec.out = <<>> /\ (Rec.err # <<>>) = (Want = 2)
Built == AsBuilt(Rec.args)
\* is what it did the known thing?
Known == "fatal" \notin DOMAIN Rec /\ Rec.rc = Built.v /\ Rec.out = <<>> /\ (Rec.err # <<>>) = (Built.v = 2)
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> [want |-> Want, known |-> Known, why |-> Built.why]]))
=============================================================================
