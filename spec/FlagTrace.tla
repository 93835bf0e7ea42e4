------------------------------ MODULE FlagTrace -----------------------------
(* A record: opts [l, k], args, and what the code did: err, ops, and for each
   option set (has it been changed from what it was before) and val.           *)
EXTENDS Flag, Json, IOUtils
CONSTANT Which
Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, done
Rec == Recs[r]
JInit == r \in 1..Len(Recs) /\ done = FALSE
JNext == ~done /\ done' = TRUE /\ UNCHANGED r
Kinds == [l \in { Rec.opts[i].l : i \in 1..Len(Rec.opts) } |-> (CHOOSE o \in { Rec.opts[i] : i \in 1..Len(Rec.opts) } : o.l = l).k]
Values(w) == \A i \in 1..Len(Rec.opts) :
                LET l == Rec.opts[i].l IN
                IF l \in DOMAIN w.vals THEN Rec.vals[i].set /\ Rec.vals[i].val = w.vals[l] ELSE ~Rec.vals[i].set
Want == Parse(Kinds, Rec.args)
Understood == LET w == Want IN w.fault \/ (~Rec.err /\ Rec.ops = w.ops /\ Values(w))
Rejected == LET w == Want IN /\ Rec.err = w.fault
                             /\ w.fault => Rec.ops = <<>> /\ Values(w)
Ok == done => "fatal" \notin DOMAIN Rec /\ (IF Which = "good" THEN Understood ELSE Rejected)
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> [fault |-> Want.fault, ops |-> Want.ops]]))
=============================================================================
