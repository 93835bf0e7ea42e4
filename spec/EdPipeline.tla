----------------------------- MODULE EdPipeline -----------------------------
(* How ed's answers get out.  A script is a sequence of command kinds: "ok",
   "err" (does not parse) and "q".  The reader takes lines from the input in
   pieces, parses, and passes commands on; the executor carries them out and
   answers; the sink takes answers at its own pace.
   Design "sync": one thread; a command is parsed when the one before has been
   answered.  Design "racy": reader and executor are threads with a channel
   between them, and the reader answers commands that do not parse itself
   (what ed did once).  Design "lossy": the program ends at the end of the input
   without waiting for the executor.                                          *)
EXTENDS Integers, Sequences
CONSTANTS MaxLen, MaxChan, Design

Kinds == {"ok", "err", "q"}
Scripts == UNION { [1..n -> Kinds] : n \in 0..MaxLen }

VARIABLES script, avail, rd, chan, busy, out, stop, quit
vars == << script, avail, rd, chan, busy, out, stop, quit >>
\* avail: lines that have arrived;  rd: lines read;  busy: command in execution (0: none)
\* out: the commands answered, in order;  stop: the program has ended

Before(s) == IF \E i \in 1..Len(s) : s[i] = "q"
             THEN (CHOOSE i \in 1..Len(s) : s[i] = "q" /\ \A j \in 1..(i - 1) : s[j] # "q") - 1
             ELSE Len(s)
Expected == [i \in 1..Before(script) |-> i]

Init == /\ script \in Scripts /\ avail = 0 /\ rd = 0 /\ chan = <<>> /\ busy = 0
        /\ out = <<>> /\ stop = FALSE /\ quit = FALSE

Arrive == avail < Len(script) /\ avail' = avail + 1
          /\ UNCHANGED << script, rd, chan, busy, out, stop, quit >>

Read == /\ ~stop /\ ~quit /\ rd < avail
        /\ rd' = rd + 1
        /\ IF Design = "sync"
           THEN /\ busy = 0 /\ chan = <<>>
                /\ busy' = rd + 1
                /\ UNCHANGED << chan, out >>
           ELSE /\ UNCHANGED busy
                /\ IF script[rd + 1] = "err"
                   THEN out' = Append(out, rd + 1) /\ UNCHANGED chan
                   ELSE Len(chan) < MaxChan /\ chan' = Append(chan, rd + 1) /\ UNCHANGED out
        /\ UNCHANGED << script, avail, stop, quit >>

Take == /\ ~stop /\ ~quit /\ busy = 0 /\ chan # <<>>
        /\ busy' = Head(chan) /\ chan' = Tail(chan)
        /\ UNCHANGED << script, avail, rd, out, stop, quit >>

Answer == /\ ~stop /\ busy # 0
          /\ IF script[busy] = "q" THEN quit' = TRUE /\ UNCHANGED out
             ELSE out' = Append(out, busy) /\ UNCHANGED quit
          /\ busy' = 0
          /\ UNCHANGED << script, avail, rd, chan, stop >>

End == /\ ~stop
       /\ \/ quit
          \/ rd = Len(script) /\ (Design = "lossy" \/ (busy = 0 /\ chan = <<>>))
       /\ stop' = TRUE
       /\ UNCHANGED << script, avail, rd, chan, busy, out, quit >>

Next == Arrive \/ Read \/ Take \/ Answer \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InOrder == Len(out) <= Len(Expected) /\ out = SubSeq(Expected, 1, Len(out))
Complete == stop => out = Expected
Ends == <>stop
=============================================================================
