------------------------------- MODULE BreMC -------------------------------
(* All expressions of up to MaxElems elements over a small alphabet, built one
   element at a time; on all strings up to MaxStr characters the backtracking
   search agrees with the declarative meaning.  Every expression is emitted
   and tried on the same strings in the real code.                           *)
EXTENDS Bre, TLC, Json, SequencesExt

CONSTANTS MaxElems, MaxStr, Alphabet, EmitAll

Atoms == { <<97>>, <<98>>, <<46>>, <<91, 97, 98, 93>> }            \* a b . [ab]
Counts == { <<>>, <<42>>, <<123, 50, 125>>, <<123, 49, 44, 125>>,  \* * {2} {1,}
            <<123, 48, 44, 49, 125>>, <<123, 49, 44, 50, 125>> }   \* {0,1} {1,2}
Strings == UNION { [1..n -> Alphabet] : n \in 0..MaxStr }

VARIABLES body, n, left, right
Expr == (IF left THEN <<94>> ELSE <<>>) \o body \o (IF right THEN <<36>> ELSE <<>>)

Init == body = <<>> /\ n = 0 /\ left \in BOOLEAN /\ right \in BOOLEAN
Next == /\ n < MaxElems
        /\ \E a \in Atoms, k \in Counts : body' = body \o a \o k
        /\ n' = n + 1
        /\ UNCHANGED << left, right >>

Agree == LET x == ParseRe(Expr) IN
         \A s \in Strings : Search(x, s) = MatchesParsed(x, s)
\* adding an anchor never adds matches
Anchors == LET x == ParseRe(Expr) IN
           \A s \in Strings : MatchesParsed(x, s) => MatchesParsed([x EXCEPT !.left = FALSE], s)
                                                     /\ MatchesParsed([x EXCEPT !.right = FALSE], s)
Emit == PrintT(ToJson([re |-> Expr]))
=============================================================================
