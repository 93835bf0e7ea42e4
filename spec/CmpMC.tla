-------------------------------- MODULE CmpMC -------------------------------
(* The byte by byte machine of the implementation against the outcome defined
   in Cmp.tla, for all pairs of short files and all options.                  *)
EXTENDS Cmp, Json
CONSTANTS MaxLen, Alphabet
Datas == UNION { [1..n -> Alphabet] : n \in 0..MaxLen }
A == << 97 >>
B == << 98 >>
Opts == { <<>>, << DashL >>, << DashS >>, << DashL, DashS >> }
VARIABLES x, y, opt, i, line, out, differ, rc, eof
vars == << x, y, opt, i, line, out, differ, rc, eof >>
O == Options(opt)
Init == /\ x \in Datas /\ y \in Datas /\ opt \in Opts
        /\ i = 1 /\ line = 1 /\ out = <<>> /\ differ = FALSE /\ rc = -1 /\ eof = <<>>
Next == /\ rc = -1
        /\ LET e1 == i > Len(x)
               e2 == i > Len(y)
           IN IF ~e1 /\ ~e2 THEN
                 IF x[i] # y[i] THEN
                     /\ out' = IF O.s THEN out ELSE IF O.l THEN out \o ByteLine(ByteNo(None, i), x[i], y[i]) ELSE DiffLine(A, B, ByteNo(None, i), LineNo(None, line))
                     /\ rc' = IF O.l THEN -1 ELSE 1
                     /\ differ' = TRUE /\ i' = i + 1 /\ line' = IF x[i] = NL THEN line + 1 ELSE line
                     /\ UNCHANGED eof
                 ELSE i' = i + 1 /\ line' = (IF x[i] = NL THEN line + 1 ELSE line) /\ UNCHANGED << out, differ, rc, eof >>
              ELSE IF e1 /\ e2 THEN rc' = (IF differ THEN 1 ELSE 0) /\ UNCHANGED << i, line, out, differ, eof >>
              ELSE /\ eof' = (IF O.s THEN <<>> ELSE IF e1 THEN A ELSE B)
                   /\ rc' = 1 /\ UNCHANGED << i, line, out, differ >>
        /\ UNCHANGED << x, y, opt >>
Want == Outcome(opt \o << A, B >>, (A :> x) @@ (B :> y), <<>>)
Right == rc # -1 => rc = Want.rc /\ out = Want.out /\ eof = Want.eof
Emit == (i = 1 /\ rc = -1) => PrintT(ToJson([x |-> x, y |-> y, opt |-> opt]))
=============================================================================
