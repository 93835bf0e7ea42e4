---------------------------- MODULE PieceTableMC ----------------------------
(* Every edit history up to MaxOps on every source up to MaxSrc bytes: the
   piece list always spells the abstract text.  At the bound each history is
   emitted; the driver replays it in the real code.                           *)
EXTENDS PieceTable, TLC, Json, FiniteSets

CONSTANTS MaxSrc, MaxOps, MaxText, EmitAt

VARIABLES src, app, pieces, text, hist
vars == << src, app, pieces, text, hist >>

Fresh(n, k) == [i \in 1..n |-> 10 * (k + 1) + i]

Init == /\ \E n \in 0..MaxSrc : src = [i \in 1..n |-> i]
        /\ app = <<>>
        /\ pieces = << Piece("orig", 0, Len(src)) >>
        /\ text = src
        /\ hist = <<>>

Insert(n, at) ==
    LET t == Fresh(n, Len(hist)) IN
    /\ pieces' = InsertPieces(pieces, Len(app), n, at)
    /\ app' = app \o t
    /\ text' = InsertText(text, t, at)
    /\ hist' = Append(hist, [op |-> "ins", text |-> t, at |-> at, n |-> 0])
    /\ UNCHANGED src

Delete(n, at) ==
    /\ pieces' = DeletePieces(pieces, n, at)
    /\ text' = DeleteText(text, n, at)
    /\ hist' = Append(hist, [op |-> "del", text |-> <<>>, at |-> at, n |-> n])
    /\ UNCHANGED << src, app >>

Next == /\ Len(hist) < MaxOps
        /\ \/ \E n \in 0..MaxText, at \in 0..Len(text) : Insert(n, at)
           \/ \E at \in 0..Len(text) : \E n \in 0..(Len(text) - at + 1) : Delete(n, at)

(* ------------------------------- properties ------------------------------ *)
Refines == Flatten(pieces, src, app) = text
WellFormed == \A i \in 1..Len(pieces) :
                LET p == pieces[i] IN
                /\ p.len >= 0 /\ p.off >= 0
                /\ p.off + p.len <= (IF p.src = "orig" THEN Len(src) ELSE Len(app))
\* text is made of source and inserted bytes only, each at most once
NoInvention == \A i, j \in 1..Len(text) : i # j => text[i] # text[j]

Emit == Len(hist) = EmitAt => PrintT(ToJson([src |-> src, hist |-> hist]))
=============================================================================
