-------------------------- MODULE PieceTableTrace ---------------------------
(* Trace validation: each record is an execution of the real piece tables,
   one step per call; after a step marked chk the text of every table was read. *)
EXTENDS PieceTable, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)

VARIABLES r, l, texts
Rec == Recs[r]
Step == Rec.steps[l]

\* a source too long to be held is a sequence of bytes and of blocks (1000 and up); the
\* places of edits count them, and no block is left when the text is read
Fresh(rec, t) == IF "items" \in DOMAIN rec THEN rec.items ELSE IF rec.lens[t] < 0 THEN <<>> ELSE SubSeq(rec.src, 1, rec.lens[t])
JInit == /\ r \in 1..Len(Recs)
         /\ l = 0
         /\ texts = [t \in 1..Len(Recs[r].lens) |->
                       IF \E i \in 1..Len(Recs[r].steps) : Recs[r].steps[i].op = "new" /\ Recs[r].steps[i].t = t - 1
                       THEN <<>> ELSE Fresh(Recs[r], t)]

Applied(s, c) == CASE s.op = "ins" -> InsertText(c, s.text, s.at)
                   [] s.op = "del" -> DeleteText(c, s.n, s.at)
                   [] s.op = "new" -> Fresh(Rec, s.t + 1)    \* made now; until then it has no text
                   [] OTHER -> c      \* reading, and changes to slices passed in, have no effect

JNext == /\ "fatal" \notin DOMAIN Rec
         /\ l < Len(Rec.steps)
         /\ l' = l + 1
         /\ LET s == Rec.steps[l + 1] IN
              texts' = [texts EXCEPT ![s.t + 1] = Applied(s, @)]
         /\ UNCHANGED r

Ok == /\ "fatal" \notin DOMAIN Rec
      /\ (l > 0 /\ Step.chk = 1) => Step.obs = texts
      /\ (l = Len(Rec.steps)) => "items" \in DOMAIN Rec \/ Rec.after = Rec.src     \* the source is left alone

Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> <<l, texts>>]))
=============================================================================
