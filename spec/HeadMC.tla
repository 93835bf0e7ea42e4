------------------------------- MODULE HeadMC -------------------------------
(* Copying line by line, through a buffer that is filled in pieces, gives the
   first lines as Head.tla defines them, for all short files; emitted.        *)
EXTENDS Head, Json
CONSTANTS MaxLen, Alphabet, Ns
Datas == UNION { [1..n -> Alphabet] : n \in 0..MaxLen }
VARIABLES data, n, pos, got, out, lines, pc
vars == << data, n, pos, got, out, lines, pc >>
\* got: read but not yet given out; a line is given out when it is complete or the file ends
Init == data \in Datas /\ n \in Ns /\ pos = 0 /\ got = <<>> /\ out = <<>> /\ lines = 0 /\ pc = "run"
HasNL == \E i \in 1..Len(got) : got[i] = NL
Fill == /\ pc = "run" /\ lines < n /\ ~HasNL /\ pos < Len(data)
        /\ \E k \in 1..(Len(data) - pos) : got' = got \o SubSeq(data, pos + 1, pos + k) /\ pos' = pos + k
        /\ UNCHANGED << data, n, out, lines, pc >>
Line == /\ pc = "run" /\ lines < n /\ HasNL
        /\ LET k == Newlines(got)[1] IN out' = out \o SubSeq(got, 1, k) /\ got' = SubSeq(got, k + 1, Len(got))
        /\ lines' = lines + 1
        /\ UNCHANGED << data, n, pos, pc >>
Last1 == /\ pc = "run" /\ lines < n /\ ~HasNL /\ pos = Len(data)
         /\ out' = out \o got /\ got' = <<>> /\ pc' = "done"
         /\ UNCHANGED << data, n, pos, lines >>
Stop == pc = "run" /\ lines = n /\ pc' = "done" /\ UNCHANGED << data, n, pos, got, out, lines >>
Next == Fill \/ Line \/ Last1 \/ Stop
Right == pc = "done" => out = FirstLines(data, n)
Prefix == IsPrefix(out, data)
Emit == (pc = "run" /\ pos = 0 /\ lines = 0) => PrintT(ToJson([data |-> data, n |-> n]))
=============================================================================
