----------------------------- MODULE LocaleDefMC ----------------------------
(* Mode "write": every way of writing down a few logical lines (comment and
   empty lines between them, lines broken with the escape character, both
   characters changed) reads back as those lines.
   Mode "lines": every sequence of up to MaxLines lines of some kinds; the
   acceptor agrees with the grammar as a set of sequences.                      *)
EXTENDS LocaleDef, Json
CONSTANTS Mode, MaxLines
Str(s) == s
LC_N == << 76, 67, 95, 78, 85, 77, 69, 82, 73, 67 >>
LC_M == << 76, 67, 95, 77, 69, 83, 83, 65, 71, 69, 83 >>
KwG == << 103, 114, 111, 117, 112, 105, 110, 103 >>             \* grouping
KwY == << 121, 101, 115, 101, 120, 112, 114 >>                  \* yesexpr
MCKeys == (LC_N :> (KwG :> "ints")) @@ (LC_M :> (KwY :> "expr"))
HeadN == LC_N
HeadM == LC_M
TailN == Word_END \o << 32 >> \o LC_N
TailM == << 32 >> \o Word_END \o << 9, 32 >> \o LC_M
GoodN == KwG \o << 32, 51, 59, 51 >>
BadN == KwG \o << 32, 51, 59 >>
NoValue == KwG
GoodM == KwY \o << 9, 34, 121, 34 >>
Kinds == << HeadN, HeadM, TailN, TailM, GoodN, BadN, GoodM, NoValue >>
VARIABLES ls, text, com, esc
vars == << ls, text, com, esc >>
Joined(x) == FlattenSeq([i \in 1..Len(x) |-> x[i] \o << NL >>])

InitL == ls = <<>> /\ text = <<>> /\ com = 35 /\ esc = 92
NextL == /\ Len(ls) < MaxLines
         /\ \E i \in 1..Len(Kinds) : ls' = Append(ls, i)
         /\ text' = Joined([i \in 1..Len(ls') |-> Kinds[ls'[i]]])
         /\ UNCHANGED << com, esc >>
\* (1 5+ 3 | 2 7+ 4)+, as a set
Blocks == { [k \in 1..(n + 2) |-> IF k = 1 THEN b[1] ELSE IF k = n + 2 THEN b[3] ELSE b[2]] : n \in 1..(MaxLines - 2), b \in { << 1, 5, 3 >>, << 2, 7, 4 >> } }
Language == Blocks \cup { x \o y : x \in Blocks, y \in Blocks }
Grammar == WellFormed(text) <=> ls \in Language

\* write: ls is fixed, text grows piece by piece
Meant == << HeadN, GoodN, TailN >>
InitW == /\ ls = <<>>
         /\ \E c \in { 35, 37 }, e \in { 92, 47 } :
              /\ com = c /\ esc = e
              /\ text = (IF c = 35 THEN <<>> ELSE Word_comment \o << 32, 37, NL >>) \o (IF e = 92 THEN <<>> ELSE Word_escape \o << 9, 47, NL >>)
Broken(l) == { l } \cup { SubSeq(l, 1, i) \o << esc, NL >> \o b \o SubSeq(l, i + 1, Len(l)) : i \in { j \in { 1, 8, Len(l) - 1 } : l[j + 1] \notin Blank }, b \in { <<>>, << 32 >> } }
Noise == { <<>>, << NL >>, << com, esc, NL >> }
NextW == /\ Len(ls) < Len(Meant)
         /\ \E b \in Broken(Meant[Len(ls) + 1]), x \in Noise : text' = text \o x \o b \o << NL >>
         /\ ls' = Append(ls, Len(ls) + 1) /\ UNCHANGED << com, esc >>
Same == Mode = "write" => LET p == Pre(text) IN ~p.open /\ p.esc = esc /\ p.com = com /\ Logical(p) = SubSeq(Meant, 1, Len(ls))
Init == IF Mode = "write" THEN InitW ELSE InitL
Next == IF Mode = "write" THEN NextW ELSE NextL
Right == IF Mode = "write" THEN Same /\ (Len(ls) = Len(Meant) => WellFormed(text)) ELSE Grammar
Emit == (Mode = "lines" \/ Len(ls) = Len(Meant)) => PrintT(ToJson([text |-> text]))
=============================================================================
