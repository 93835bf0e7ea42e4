----------------------------- MODULE PieceTable -----------------------------
(* A piece table (pkg/txt) as its user sees it, a byte string, and as it is
   built: a list of pieces that are spans of the source or of an append-only
   buffer.  Contents are sequences of byte values; positions count from 0.     *)
EXTENDS Integers, Sequences

Min(a, b) == IF a < b THEN a ELSE b

(* ----- what the user relies on ------------------------------------------- *)
InsertText(c, text, at) == SubSeq(c, 1, at) \o text \o SubSeq(c, at + 1, Len(c))
\* A delete that runs past the end removes the tail
DeleteText(c, n, at) == SubSeq(c, 1, at) \o SubSeq(c, Min(at + n, Len(c)) + 1, Len(c))

(* ----- how it is built ---------------------------------------------------- *)
\* a piece: [src |-> "orig" or "app", off |-> 0.., len |-> 0..]
Piece(s, o, l) == [src |-> s, off |-> o, len |-> l]
PieceText(p, orig, app) ==
    SubSeq(IF p.src = "orig" THEN orig ELSE app, p.off + 1, p.off + p.len)

RECURSIVE Flatten(_, _, _)
Flatten(ps, orig, app) ==
    IF ps = <<>> THEN <<>>
    ELSE PieceText(Head(ps), orig, app) \o Flatten(Tail(ps), orig, app)

RECURSIVE EndOf(_, _)    \* offset just after piece i
EndOf(ps, i) == IF i = 0 THEN 0 ELSE EndOf(ps, i - 1) + ps[i].len

FirstAt(ps, at) ==       \* the first piece that reaches at
    CHOOSE i \in 1..Len(ps) : /\ EndOf(ps, i) >= at
                              /\ \A j \in 1..(i - 1) : EndOf(ps, j) < at

InsertPieces(ps, appLen, n, at) ==
    LET i == FirstAt(ps, at)
        left == at - EndOf(ps, i - 1)
        p == ps[i]
    IN  SubSeq(ps, 1, i - 1)
        \o << Piece(p.src, p.off, left),
              Piece("app", appLen, n),
              Piece(p.src, p.off + left, p.len - left) >>
        \o SubSeq(ps, i + 1, Len(ps))

DeletePieces(ps, n, at) ==
    LET i == FirstAt(ps, at)
        start == EndOf(ps, i - 1)
        p == ps[i]
        cut == Piece(p.src, p.off, at - start)
        reach == { j \in i..Len(ps) : EndOf(ps, j) >= at + n }
    IN  IF reach = {} THEN SubSeq(ps, 1, i - 1) \o << cut >>
        ELSE LET j == CHOOSE j \in reach : \A k \in reach : j <= k
                 q == ps[j]
                 trim == at + n - EndOf(ps, j - 1)
             IN  SubSeq(ps, 1, i - 1)
                 \o << cut, Piece(q.src, q.off + trim, q.len - trim) >>
                 \o SubSeq(ps, j + 1, Len(ps))

=============================================================================
