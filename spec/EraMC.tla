-------------------------------- MODULE EraMC -------------------------------
(* The description grows by one piece at a time; taking it apart gives back the
   fields it was put together from.                                            *)
EXTENDS Era, Json
CONSTANT MaxFields
Pieces == { << 43 >>, << 45 >>, << 49 >>, << 45, 50 >>, <<>>, << 120 >> }
VARIABLE fs
Join(x) == FlattenSeq([i \in 1..Len(x) |-> (IF i = 1 THEN <<>> ELSE << Colon >>) \o x[i]])
Init == fs = <<>>
Next == Len(fs) < MaxFields /\ \E p \in Pieces : /\ (Len(fs) \in { 2, 3 } => p \in { <<>>, << 120 >> })
                                                 /\ fs' = Append(fs, p)
Text == Join(fs)
Right == Len(fs) >= 1 =>
         IF Good(Text) THEN /\ Len(fs) >= 6 /\ EraOf(Text).startdate = fs[3] /\ EraOf(Text).enddate = fs[4] /\ EraOf(Text).name = fs[5]
                            /\ EraOf(Text).format = Join(SubSeq(fs, 6, Len(fs))) /\ EraOf(Text).reverse = (fs[1] = << 45 >>)
         ELSE Len(fs) < 6 \/ fs[1] \notin { << 43 >>, << 45 >> } \/ fs[2] \notin { << 49 >>, << 45, 50 >> }
Emit == Len(fs) >= 1 => PrintT(ToJson([s |-> Text]))
=============================================================================
