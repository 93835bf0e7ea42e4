------------------------------ MODULE EdTrace -------------------------------
(* Trace validation.  A record is one run of the real editor:
     script  the lines it was given         files0, files  the files before and after
     out     everything it printed          final  its text at the end (optional)
     bad     names that cannot be opened
     loose   present for lines outside the grammar: only that the editor comes to its end counts
     now     present for a look at an editor at rest whose input has not ended or has just
             (closed): script is the whole lines so far, ended says whether the editor has
     stray   present when something was printed elsewhere than where the answers go
   One step of the judge is one command.  An answer to a failed command is only
   known to start with '?', so the judge keeps the set of places in the output
   where the next answer may start.                                            *)
EXTENDS Ed, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, k, st, at, done, quit
Rec == Recs[r]
ToFiles(fs) == [n \in { fs[i].n : i \in 1..Len(fs) } |-> (CHOOSE i \in 1..Len(fs) : fs[i].n = n)]
FileMap(fs) == LET ix == ToFiles(fs) IN [n \in DOMAIN ix |-> fs[ix[n]].d]
Bad == { Rec.bad[i] : i \in 1..Len(Rec.bad) }
Fatal == "fatal" \in DOMAIN Rec

JInit == /\ r \in 1..Len(Recs)
         /\ k = 1
         /\ st = Empty(IF "fatal" \in DOMAIN Recs[r] THEN <<>> ELSE FileMap(Recs[r].files0))
         /\ at = {0}
         /\ done = FALSE /\ quit = FALSE

\* ends of an answer to a failed command that starts after p: a first line with
\* '?', then lines that do not begin with '?'
ErrEnds(out, p) ==
    LET nl(q) == out[q] = NL
        last(q) == nl(q) /\ (q = Len(out) \/ out[q + 1] = 63)
        in == (p + 1)..Len(out)
        stop == IF \E q \in in : last(q) THEN CHOOSE q \in in : last(q) /\ \A x \in (p + 1)..(q - 1) : ~last(x) ELSE Len(out)
    IN { q \in (p + 1)..stop : nl(q) }
AfterErr(p) == IF p < Len(Rec.out) /\ Rec.out[p + 1] = 63 THEN ErrEnds(Rec.out, p) ELSE {}

AfterOut(p, text) == IF p + Len(text) <= Len(Rec.out) /\ SubSeq(Rec.out, p + 1, p + Len(text)) = text
                     THEN {p + Len(text)} ELSE {}

\* a command whose text has not ended, and may yet
Waits == "now" \in DOMAIN Rec /\ ~Rec.now.closed /\ StartsText(Rec.script[k]) /\ EndOfText(Rec.script, k + 1) = 0

JNext == /\ "loose" \notin DOMAIN Rec /\ ~Fatal /\ ~done /\ at # {}
         /\ IF k > Len(Rec.script) \/ Waits THEN done' = TRUE /\ UNCHANGED << r, k, st, at, quit >>
            ELSE LET x == Step(st, Rec.script, k, Bad) IN
                 /\ st' = x.st
                 /\ k' = x.next
                 /\ done' = (x.kind = "quit")
                 /\ quit' = (x.kind = "quit")
                 /\ at' = CASE x.kind = "quit" -> at
                            [] x.kind = "err" -> UNION { AfterErr(p) : p \in at }
                            [] OTHER -> UNION { AfterOut(p, x.out) : p \in at }
                 /\ UNCHANGED r

\* the permissions of files that were there are kept
ModesKept == \A i \in 1..Len(Rec.files0), j \in 1..Len(Rec.files) :
                (Rec.files0[i].n = Rec.files[j].n /\ "m" \in DOMAIN Rec.files0[i]) => Rec.files[j].m = Rec.files0[i].m
Ok == /\ ~Fatal
      /\ "stray" \notin DOMAIN Rec
      /\ at # {}
      /\ done => /\ Len(Rec.out) \in at
                 /\ "now" \in DOMAIN Rec => Rec.now.ended = (quit \/ Rec.now.closed)
                 /\ "final" \in DOMAIN Rec => Rec.final = Text(st)
                 /\ "files" \in DOMAIN Rec => FileMap(Rec.files) = st.files /\ ModesKept
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> [line |-> k, done |-> done, at |-> at, lines |-> IF Len(st.lines) > 50 THEN SubSeq(st.lines, 1, 50) ELSE st.lines, count |-> Len(st.lines), nl |-> st.nl, cur |-> st.cur]]))
=============================================================================
