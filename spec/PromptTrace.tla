---------------------------- MODULE PromptTrace -----------------------------
(* A record is one run of a program with inputs that arrive in part: srcs are its
   sources with all they will ever hold, steps what was seen each time the program
   had come to rest: how much of each source had arrived (len), whether it had
   ended (closed), all output so far, and whether the program had ended.
   One step of the judge is one such look.                                     *)
EXTENDS Prompt, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, k
Rec == Recs[r]
JInit == r \in 1..Len(Recs) /\ k = 1
JNext == "steps" \in DOMAIN Rec /\ k < Len(Rec.steps) /\ k' = k + 1 /\ UNCHANGED r
S == Rec.steps[k]
Index(n) == CHOOSE m \in 1..Len(Rec.srcs) : Rec.srcs[m].n = n
Names == { Rec.srcs[m].n : m \in 1..Len(Rec.srcs) }
Have == [n \in Names |-> SubSeq(Rec.srcs[Index(n)].d, 1, S.len[Index(n)])]
Closed == { n \in Names : S.closed[Index(n)] }
Owed == Due(Rec.prog, Rec.args, Have, Closed)
Ok == /\ "fatal" \notin DOMAIN Rec
      /\ LET due == Owed IN
         /\ May(due, S.out)
         /\ S.ended = due.over
         /\ due.over => (S.rc # 0) = due.failed
         /\ (due.over /\ Rec.prog = "cmp") => S.rc = due.rc
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> IF "fatal" \in DOMAIN Rec THEN [step |-> 0] ELSE [step |-> k, over |-> Owed.over, failed |-> Owed.failed, lens |-> { Len(o) : o \in Owed.outs }]]))
=============================================================================
