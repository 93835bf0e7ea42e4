------------------------------- MODULE DiffMC -------------------------------
(* The recursive algorithm (keep a longest common block, compare what is before
   and after it) as a machine with a stack, choosing any of the longest blocks,
   for all pairs of short lists: every result is a good edit script, the normal
   diff written from it is accepted by the machine that reads diffs, and one
   with a wrong number or line is not.                                         *)
EXTENDS Diff, Json, FiniteSets
CONSTANTS MaxLen, Alphabet, EmitSum
Lists == UNION { [1..n -> { << a >> : a \in Alphabet }] : n \in 0..MaxLen }
VARIABLES old, new, todo, script
vars == << old, new, todo, script >>
\* a piece of work: old[o1..o2] against new[n1..n2], or a kept block of k lines
Init == /\ old \in Lists /\ new \in Lists
        /\ todo = << [o1 |-> 1, o2 |-> Len(old), n1 |-> 1, n2 |-> Len(new), keep |-> FALSE] >>
        /\ script = <<>>
Blocks(w) == { << o, n, k >> \in (w.o1..w.o2) \X (w.n1..w.n2) \X (1..MaxLen) :
                 o + k - 1 <= w.o2 /\ n + k - 1 <= w.n2 /\ SameRun(old, new, o, n, k) }
Longest(w) == LET b == Blocks(w) IN { x \in b : \A y \in b : y[3] <= x[3] }
Line(k, l) == [k |-> k, v |-> l]
Next == /\ todo # <<>>
        /\ LET w == Head(todo) IN
           IF w.keep \/ Longest(w) = {} THEN
               /\ script' = script \o (IF w.keep THEN [i \in 1..(w.o2 - w.o1 + 1) |-> Line(Kept, old[w.o1 + i - 1])]
                                       ELSE [i \in 1..(w.o2 - w.o1 + 1) |-> Line(Removed, old[w.o1 + i - 1])]
                                            \o [i \in 1..(w.n2 - w.n1 + 1) |-> Line(Added, new[w.n1 + i - 1])])
               /\ todo' = Tail(todo)
           ELSE \E b \in Longest(w) :
               /\ todo' = << [o1 |-> w.o1, o2 |-> b[1] - 1, n1 |-> w.n1, n2 |-> b[2] - 1, keep |-> FALSE],
                             [o1 |-> b[1], o2 |-> b[1] + b[3] - 1, n1 |-> b[2], n2 |-> b[2] + b[3] - 1, keep |-> TRUE],
                             [o1 |-> b[1] + b[3], o2 |-> w.o2, n1 |-> b[2] + b[3], n2 |-> w.n2, keep |-> FALSE] >> \o Tail(todo)
               /\ UNCHANGED script
        /\ UNCHANGED << old, new >>
Done == todo = <<>>
Out == Normal(script, 1, 1)
Right == Done => GoodScript(script, old, new) /\ GoodDiff(Out, old, new)
\* what has been decided so far is always a prefix of both lists
SoFar == IsPrefix(OldOf(script), old) /\ IsPrefix(NewOf(script), new)
\* reading it backwards turns new into old
Swap(s) == [i \in 1..Len(s) |-> IF s[i].k = Added THEN Line(Removed, s[i].v) ELSE IF s[i].k = Removed THEN Line(Added, s[i].v) ELSE s[i]]
Reversible == Done => Rebuilds(Swap(script), new, old)
Damaged(o, i) == { [o EXCEPT ![i] = Append(@, 120)], [o EXCEPT ![i] = << 49 >> \o @], SubSeq(o, 1, i - 1) \o SubSeq(o, i + 1, Len(o)) }
Picky == Done => \A i \in 1..Len(Out) : \A o \in Damaged(Out, i) : ~GoodDiff(o, old, new)
Emit == (script = <<>> /\ Len(todo) = 1 /\ Head(todo).o1 = 1 /\ Head(todo).o2 = Len(old) /\ ~Head(todo).keep
         /\ Head(todo).n1 = 1 /\ Head(todo).n2 = Len(new) /\ Len(old) + Len(new) <= EmitSum)
        => PrintT(ToJson([old |-> old, new |-> new]))
=============================================================================
