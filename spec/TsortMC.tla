------------------------------ MODULE TsortMC -------------------------------
(* The algorithm: take any item nothing left has to precede, until there is
   none; for all sequences of up to MaxAdds chains of up to MaxChain of N items
   (no item directly before itself).  Whatever is taken first, it ends with a
   valid order if there is one and with items left exactly if there is none.   *)
EXTENDS Tsort, Json
CONSTANTS N, MaxAdds, MaxChain, EmitLen
Chains == { ch \in UNION { [1..n -> 1..N] : n \in 1..MaxChain } : \A j \in 1..(Len(ch) - 1) : ch[j] # ch[j + 1] }
VARIABLES adds, phase, left, edges, out
vars == << adds, phase, left, edges, out >>
Init == adds = <<>> /\ phase = "add" /\ left = {} /\ edges = {} /\ out = <<>>
Add == /\ phase = "add" /\ Len(adds) < MaxAdds
       /\ \E ch \in Chains : adds' = Append(adds, ch)
       /\ UNCHANGED << phase, left, edges, out >>
Begin == /\ phase = "add" /\ phase' = "order"
         /\ left' = Items(adds) /\ edges' = Pairs(adds) /\ UNCHANGED << adds, out >>
Heads == { x \in left : \A p \in edges : p[2] # x }
Take == /\ phase = "order"
        /\ \E x \in Heads : /\ out' = Append(out, x) /\ left' = left \ { x }
                            /\ edges' = { p \in edges : p[1] # x }
        /\ UNCHANGED << adds, phase >>
Finish == phase = "order" /\ Heads = {} /\ phase' = "done" /\ UNCHANGED << adds, left, edges, out >>
Next == Add \/ Begin \/ Take \/ Finish
Partial == phase = "order" => \A i \in 1..Len(out) : out[i] \notin left
Right == phase = "done" => IF left = {} THEN ~Impossible(adds) /\ ValidOrder(out, adds) ELSE Impossible(adds)
\* a cycle is what makes it impossible: some item comes before itself
RECURSIVE Close(_)
Close(s) == LET t == s \cup { z \in (1..N) \X (1..N) : \E y \in 1..N : << z[1], y >> \in s /\ << y, z[2] >> \in s }
            IN IF t = s THEN s ELSE Close(t)
CycleIsTheReason == phase = "add" => (Impossible(adds) <=> \E x \in 1..N : << x, x >> \in Close(Pairs(adds)))
Emit == (phase = "add" /\ Len(adds) <= EmitLen) => PrintT(ToJson([adds |-> adds]))
=============================================================================
