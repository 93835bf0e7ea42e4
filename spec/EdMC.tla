-------------------------------- MODULE EdMC --------------------------------
(* All scripts of MaxOps commands from an alphabet (VERIF_CMDS: one command per
   line of JSON, as a sequence of lines) on each of the files in VERIF_FILES.
   Beside the editor of Ed.tla runs one that keeps the buffer as one text and
   works with byte offsets, as the implementation does; the two always agree.
   Every script is emitted and replayed in the real editor.                   *)
EXTENDS Ed, Json, IOUtils

CONSTANTS MaxOps
Cmds == ndJsonDeserialize(IOEnv.VERIF_CMDS)
Data == ndJsonDeserialize(IOEnv.VERIF_FILES)
F == << 102 >>    \* the file's name

VARIABLES f, hist, st, prev, kind, flat
vars == << f, hist, st, prev, kind, flat >>

(* ------------------- the buffer as one text with offsets ----------------- *)
FlatLines(t) == LinesOf(t)
Offset(t, n) ==      \* where line n starts; past the end if there are fewer lines
    LET ls == FlatLines(t)
        m == IF n > Len(ls) THEN Len(ls) ELSE n - 1
    IN FoldLeft(LAMBDA acc, l : acc + Len(l) + 1, 0, SubSeq(ls, 1, m))
FlatInsert(t, n, text) ==
    LET o == Offset(t, n)
        body == Joined(text) \o << NL >>
    IN IF o > Len(t) THEN t \o << NL >> \o body
       ELSE SubSeq(t, 1, o) \o body \o SubSeq(t, o + 1, Len(t))
FlatDelete(t, s, e) == SubSeq(t, 1, Offset(t, s)) \o SubSeq(t, Offset(t, e + 1) + 1, Len(t))

FlatStep(t, c, s, text, k2) ==
    LET x == Addressed(s, c) IN
    IF k2 # "out" \/ (c.op \in { "a", "i" } /\ text = <<>>) THEN t
    ELSE CASE c.op = "d" -> FlatDelete(t, x[1], x[2])
           [] c.op = "a" -> FlatInsert(t, x[1] + 1, text)
           [] c.op = "i" -> FlatInsert(t, IF x[1] = 0 THEN 1 ELSE x[1], text)
           [] c.op = "c" -> IF text = <<>> THEN FlatDelete(t, x[1], x[2]) ELSE FlatInsert(FlatDelete(t, x[1], x[2]), x[1], text)
           [] c.op = "e" -> s.files[c.arg]
           [] OTHER -> t

Init == /\ f \in 1..Len(Data)
        /\ hist = <<>>
        /\ st = Loaded(Empty(F :> Data[f]), F)
        /\ prev = st
        /\ kind = "out"
        /\ flat = Data[f]

Do(i) == LET script == Cmds[i]
             x == Step(st, script, 1, {})
             text == IF StartsText(script[1]) THEN SubSeq(script, 2, EndOfText(script, 2) - 1) ELSE <<>>
         IN /\ x.next = Len(script) + 1
            /\ st' = x.st
            /\ kind' = x.kind
            /\ prev' = st
            /\ flat' = FlatStep(flat, Parse(script[1]), st, text, x.kind)
            /\ hist' = Append(hist, i)
            /\ UNCHANGED f
Next == Len(hist) < MaxOps /\ \E i \in 1..Len(Cmds) : Do(i)

(* ------------------------------- properties ------------------------------ *)
Refines == /\ FlatLines(flat) = st.lines
           /\ flat = Contents(st)
NoTextAtZero == \E i \in 1..Len(hist) : Len(Cmds[hist[i]]) = 2 /\ Parse(Cmds[hist[i]][1]).op = "a"      \* as 0a, no text
CurrentLine == /\ st.cur >= 0 /\ st.cur <= LastLine(st)
               /\ LastLine(st) > 0 /\ st.cur = 0 => NoTextAtZero

FailedChangesNothing == kind = "err" => st = prev
NoNewlineInLine == \A i \in 1..LastLine(st) : \A j \in 1..Len(st.lines[i]) : st.lines[i][j] # NL
\* a command adds lines in one place and takes lines from the same place, the rest stays
OneSplice == \/ hist = <<>> \/ Parse(Cmds[hist[Len(hist)]][1]).op = "e"
             \/ \E p \in 0..LastLine(prev), q \in 0..LastLine(prev) :
                   /\ p + q <= LastLine(prev) /\ p + q <= LastLine(st)
                   /\ SubSeq(prev.lines, 1, p) = SubSeq(st.lines, 1, p)
                   /\ SubSeq(prev.lines, LastLine(prev) - q + 1, LastLine(prev)) = SubSeq(st.lines, LastLine(st) - q + 1, LastLine(st))
                   /\ \/ LastLine(prev) - p - q = 0 \/ LastLine(st) - p - q <= Len(Cmds[hist[Len(hist)]])
Emit == Len(hist) = MaxOps => PrintT(ToJson([f |-> f, h |-> hist]))
=============================================================================
