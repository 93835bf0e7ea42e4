------------------------------ MODULE DiffTrace ------------------------------
EXTENDS Diff, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, done
Rec == Recs[r]
JInit == r \in 1..Len(Recs) /\ done = FALSE
JNext == ~done /\ done' = TRUE /\ UNCHANGED r

\* ---- C08: the parts of a comparison, each its lines after a mark and a blank
Parts(cs) == FlattenSeq([i \in 1..Len(cs) |-> IF cs[i] = <<>> THEN <<>> ELSE Split(cs[i])])
Script(cs) == LET ls == Parts(cs) IN [i \in 1..Len(ls) |-> [k |-> ls[i][1], v |-> SubSeq(ls[i], 3, Len(ls[i]))]]
Marked(cs) == \A i \in 1..Len(Parts(cs)) : Len(Parts(cs)[i]) >= 2 /\ Parts(cs)[i][2] = 32
Compared == LET p == Parts(Rec.parts) IN
            /\ \A i \in 1..Len(p) : Len(p[i]) >= 2 /\ p[i][2] = 32
            /\ GoodScript(Script(Rec.parts), Rec.old, Rec.new)
            /\ Rec.oldafter = Rec.old /\ Rec.newafter = Rec.new
\* ---- C09: Format's result (no final newline) or the program's output
Formatted == IF Rec.what = "format" THEN GoodDiff(IF Rec.out = <<>> THEN <<>> ELSE Split(Rec.out), Rec.old, Rec.new)
             ELSE /\ (Rec.out = <<>> \/ Rec.out[Len(Rec.out)] = NL)
                  /\ GoodDiff(FileLines(Rec.out), FileLines(Rec.olddata), FileLines(Rec.newdata))
\* ---- long lists, given as runs of decimal numbers
Spell(runs) == FlattenSeq([j \in 1..Len(runs) |-> [i \in 1..runs[j][2] |-> Digits(runs[j][1] + i - 1)]])
Long == GoodDiff(FileLines(Rec.out \o << NL >>), Spell(Rec.oldruns), Spell(Rec.newruns))
\* a script in runs: the kept and removed ones make up the old list, the kept and added ones the new one
RECURSIVE Merge(_)
Merge(rs) == IF Len(rs) < 2 THEN rs
             ELSE IF rs[1][1] + rs[1][2] = rs[2][1] THEN Merge(<< << rs[1][1], rs[1][2] + rs[2][2] >> >> \o SubSeq(rs, 3, Len(rs)))
             ELSE << rs[1] >> \o Merge(Tail(rs))
RunsOf(kinds) == LET s == SelectSeq(Rec.runs, LAMBDA e : e[1] \in kinds) IN [i \in 1..Len(s) |-> << s[i][2], s[i][3] >>]
After(rs) == [i \in 1..Len(rs) |-> << 0, rs[i][1], rs[i][2] >>]
\* runs between kept ones share no number
RunsApart == \A i, j \in 1..Len(Rec.runs) :
                 (Rec.runs[i][1] = Removed /\ Rec.runs[j][1] = Added
                  /\ ~\E k \in (i + 1)..(j - 1) \cup (j + 1)..(i - 1) : Rec.runs[k][1] = Kept)
                 => Rec.runs[i][2] + Rec.runs[i][3] <= Rec.runs[j][2] \/ Rec.runs[j][2] + Rec.runs[j][3] <= Rec.runs[i][2]
LongCompared == /\ \A i \in 1..Len(Rec.runs) : Rec.runs[i][1] \in { Kept, Added, Removed }
                /\ Merge(RunsOf({ Kept, Removed })) = Merge(Rec.oldruns)
                /\ Merge(RunsOf({ Kept, Added })) = Merge(Rec.newruns)
                /\ RunsApart
                /\ Rec.oldafter = After(Merge(Rec.oldruns)) /\ Rec.newafter = After(Merge(Rec.newruns))
\* ---- C10: the program
DashNum == { << 45, 67 >>, << 45, 85 >> }                    \* -C n, -U n
Plain == { << 45, x >> : x \in { 98, 99, 101, 102, 114, 117 } }
RECURSIVE BadNumber(_), Operands(_)
\* an option that takes a number and gets none
BadNumber(as) == IF as = <<>> THEN FALSE
                 ELSE IF Head(as) \in DashNum THEN Len(as) < 2 \/ as[2] = <<>> \/ (\E i \in 1..Len(as[2]) : ~IsDigit(as[2][i])) \/ BadNumber(SubSeq(as, 3, Len(as)))
                 ELSE BadNumber(Tail(as))
Operands(as) == IF as = <<>> THEN << >>
                ELSE IF Head(as) \in Plain THEN Operands(Tail(as))
                ELSE IF Head(as) \in DashNum THEN Operands(SubSeq(as, 3, Len(as)))
                ELSE << Head(as) >> \o Operands(Tail(as))
Status == LET ops == Operands(Rec.args)
              files == FileMap(Rec.files)
              trouble == BadNumber(Rec.args) \/ Len(ops) # 2 \/ \E i \in 1..Len(ops) : ops[i] \notin DOMAIN files
          IN IF trouble THEN 2 ELSE IF FileLines(files[ops[1]]) = FileLines(files[ops[2]]) THEN 0 ELSE 1
Exited == /\ Rec.rc = Status
          /\ IF Status = 1 THEN Rec.out # <<>> /\ Rec.err = <<>> ELSE Rec.out = <<>>
          /\ (Rec.err # <<>>) = (Status = 2)

Ok == done => /\ "fatal" \notin DOMAIN Rec
              /\ CASE Rec.what = "compare" -> Compared
                   [] Rec.what \in { "format", "file" } -> Formatted
                   [] Rec.what = "runs" -> Long
                   [] Rec.what = "compareruns" -> LongCompared
                   [] Rec.what = "exit" -> Exited
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> Rec.what]))
=============================================================================
