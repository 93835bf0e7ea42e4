---------------------------- MODULE OutputTrace -----------------------------
(* A record is one run of a program:
     all, ok   its output and status where every write succeeds
     room      how many bytes its standard output takes, -1: any number
     fault     whether a write was made to fail, whatever the room
     got, rc   what got there, and its status; err: whether it said something on standard error
     trouble   the statuses that tell of trouble, <<>>: all but 0
     signal    whether it was ended by a signal                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, done
Rec == Recs[r]
JInit == r \in 1..Len(Recs) /\ done = FALSE
JNext == ~done /\ done' = TRUE /\ UNCHANGED r
Short == Rec.room >= 0 /\ Rec.room < Len(Rec.all)
Prefix == Len(Rec.got) <= Len(Rec.all) /\ SubSeq(Rec.all, 1, Len(Rec.got)) = Rec.got
Success == Rec.rc = Rec.ok /\ Rec.got = Rec.all
Trouble == /\ IF Rec.trouble = <<>> THEN Rec.rc # 0 ELSE Rec.signal \/ \E i \in 1..Len(Rec.trouble) : Rec.trouble[i] = Rec.rc
           /\ Rec.err \/ Rec.signal
Ok == done => /\ "fatal" \notin DOMAIN Rec
              /\ IF Short THEN Trouble /\ Prefix
                 ELSE IF Rec.fault THEN Success \/ Trouble
                 ELSE Success
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> [short |-> Short, rc |-> Rec.rc, got |-> Len(Rec.got), all |-> Len(Rec.all)]]))
=============================================================================
