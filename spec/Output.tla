------------------------------- MODULE Output -------------------------------
(* A program that writes its output to a place with limited room.  It goes out
   in pieces, one write each.  A write that does not fit is cut short and fails,
   as do all later ones; besides, any one write may fail for a passing reason,
   after any part of its data.
   Design "stops": the first write that fails ends the program with an error.
   Design "goes on": the other pieces are tried as well, the status tells.
   Design "last": only the outcome of the last write counts.
   Design "ignores": nobody looks.                                            *)
EXTENDS Integers, Sequences
CONSTANTS Pieces, MaxLen, Design
VARIABLES lens, room, n, sent, lost, ended, status
vars == << lens, room, n, sent, lost, ended, status >>
\* sent: the bytes that got there, as << piece, number >>; lost: something did not
Bytes(i, k) == [j \in 1..k |-> << i, j >>]
RECURSIVE AllOf(_, _)
AllOf(ls, i) == IF i > Len(ls) THEN <<>> ELSE Bytes(i, ls[i]) \o AllOf(ls, i + 1)
Min(a, b) == IF a < b THEN a ELSE b

Init == /\ lens \in UNION { [1..k -> 0..MaxLen] : k \in 0..Pieces }
        /\ room \in 0..(Pieces * MaxLen)
        /\ n = 1 /\ sent = <<>> /\ lost = FALSE /\ ended = FALSE /\ status = 0

\* what the program makes of a write's outcome
Outcome(failed) ==
    /\ status' = CASE Design = "ignores" -> 0
                   [] Design = "last" -> IF failed THEN 1 ELSE 0
                   [] OTHER -> IF failed THEN 1 ELSE status
    /\ ended' = (failed /\ Design = "stops")
Write == /\ ~ended /\ n <= Len(lens) /\ n' = n + 1
         /\ \/ LET k == Min(lens[n], room) IN        \* as much as fits
                 /\ sent' = sent \o Bytes(n, k)
                 /\ room' = room - k
                 /\ lost' = (lost \/ k < lens[n])
                 /\ Outcome(k < lens[n])
            \/ /\ lens[n] > 0 /\ ~lost              \* a passing failure
               /\ \E k \in 0..Min(lens[n] - 1, room) : sent' = sent \o Bytes(n, k) /\ room' = room - k
               /\ lost' = TRUE
               /\ Outcome(TRUE)
         /\ UNCHANGED lens
End == ~ended /\ n > Len(lens) /\ ended' = TRUE /\ UNCHANGED << lens, room, n, sent, lost, status >>
Next == Write \/ End

\* success means that everything got there, and only what got there in full is a success
Honest == ended => (status = 0) = (sent = AllOf(lens, 1))
\* nothing follows what is missing
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
NoHole == Design = "stops" => IsPrefix(sent, AllOf(lens, 1))
=============================================================================
