------------------------------ MODULE PromptMC ------------------------------
(* Every order in which two inputs can arrive and end.  What is due only grows, is
   final once it is over, and when all input has come it is what the
   specifications of the programs say of whole files.                        *)
EXTENDS Prompt, Json
CONSTANTS MaxLen, Alphabet
P == << 112 >>
Q == << 113 >>
N == << 45, 110 >>
Datas == UNION { [1..n -> Alphabet] : n \in 0..MaxLen }
Lines == { << "cat", << C!DashU, P, Q >> >>, << "cat", << C!DashU, P, << 109 >>, Q >> >>,
           << "head", << N, << 49 >>, P, Q >> >>, << "head", << N, << 50 >>, P, Q >> >>, << "head", << N, << 48 >>, P, Q >> >>,
           << "cmp", << P, Q >> >>, << "cmp", << << 45, 108 >>, P, Q >> >>, << "cmp", << << 45, 115 >>, P, Q >> >> }
VARIABLES line, x, y, i, j, cx, cy, hist
vars == << line, x, y, i, j, cx, cy, hist >>
Files == (P :> x) @@ (Q :> y)
Have == (P :> SubSeq(x, 1, i)) @@ (Q :> SubSeq(y, 1, j))
Closed == (IF cx THEN {P} ELSE {}) \cup (IF cy THEN {Q} ELSE {})
Owed == Due(line[1], line[2], Have, Closed)
Init == line \in Lines /\ x \in Datas /\ y \in Datas /\ i = 0 /\ j = 0 /\ cx = FALSE /\ cy = FALSE /\ hist = <<>>
Next == \/ i < Len(x) /\ i' = i + 1 /\ hist' = Append(hist, 1) /\ UNCHANGED << line, x, y, j, cx, cy >>
        \/ j < Len(y) /\ j' = j + 1 /\ hist' = Append(hist, 2) /\ UNCHANGED << line, x, y, i, cx, cy >>
        \/ i = Len(x) /\ ~cx /\ cx' = TRUE /\ hist' = Append(hist, 3) /\ UNCHANGED << line, x, y, i, j, cy >>
        \/ j = Len(y) /\ ~cy /\ cy' = TRUE /\ hist' = Append(hist, 4) /\ UNCHANGED << line, x, y, i, j, cx >>
Grows == [][LET a == Owed  b == Owed' IN
            /\ a.over => b = a
            /\ \A o \in a.outs : a.exact => \E p \in b.outs : IsPrefix(o, p)]_vars
Final == (cx /\ cy) =>
    /\ Owed.over
    /\ CASE line[1] = "cat" -> LET s == C!Run(C!Start(line[2], <<>>), Files) IN Owed.outs = { s.out } /\ Owed.failed = s.failed
         [] line[1] = "head" -> LET s == H!Run(H!Start(line[2], <<>>), Files) IN Owed.outs = s.outs /\ Owed.failed = s.failed
         [] OTHER -> LET w == D!Outcome(line[2], Files, <<>>) IN Owed.outs = { w.out } /\ Owed.rc = w.rc
Emit == (cx /\ cy) => PrintT(ToJson([prog |-> line[1], args |-> line[2], x |-> x, y |-> y, h |-> hist]))
=============================================================================
