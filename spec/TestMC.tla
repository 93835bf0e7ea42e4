-------------------------------- MODULE TestMC ------------------------------
(* All argument lists of up to MaxArgs words of a vocabulary in which every word
   can be an operator or an operand.  The known deviations are the only
   differences between the rules and the reading from the left.                *)
EXTENDS Test, Json
CONSTANTS MaxArgs
MCFile(n) == [type |-> IF n = << 97 >> THEN "regular" ELSE "none", link |-> FALSE, size |-> FALSE, setgid |-> FALSE, setuid |-> FALSE]
Vocab == { <<>>, Not, << 45, 110 >>, << 45, 122 >>, << 45, 101 >>, << 97 >>, << 49 >>, Op_same, Op_diff, Op_lt }
VARIABLE a
Init == a = <<>>
Next == Len(a) < MaxArgs /\ \E w \in Vocab : a' = Append(a, w)
InRange == Posix(a) \in 0..2 /\ AsBuilt(a).v \in 0..2
OnlyKnown == Posix(a) # AsBuilt(a).v => AsBuilt(a).why # {}
\* negation is an involution on what is understood
Involution == Len(a) \in { 1, 2 } /\ ~IsBinary(a[1]) /\ ~(Len(a) = 2 /\ IsBinary(a[2])) => LET n == << Not >> \o a IN (Len(a) = 2 => Posix(n) = Neg(Posix(a)))
Emit == PrintT(ToJson([a |-> a]))
=============================================================================
