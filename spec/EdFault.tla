------------------------------ MODULE EdFault -------------------------------
(* Runs of the real editor in which operating system calls failed or which were
   killed.  Each command that reads or writes a file may then fail, with the
   file in its old or its new state, at most Rec.faults of them.  The judge
   follows all possibilities: a set of configurations [st, at, f].
   A killed run (Rec.killed = 1) may end anywhere: its output is that of some
   first commands, and its files are as they left them or as the next one does. *)
EXTENDS Ed, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, k, S, done, acc
Rec == Recs[r]
FileMap(fs) == LET ix == [n \in { fs[i].n : i \in 1..Len(fs) } |-> (CHOOSE i \in 1..Len(fs) : fs[i].n = n)]
               IN [n \in DOMAIN ix |-> fs[ix[n]].d]
ModeOf(fs, n) == fs[CHOOSE i \in 1..Len(fs) : fs[i].n = n].m
Final == FileMap(Rec.files)
Killed == Rec.killed = 1
NoOut == Rec.noout = 1      \* the failed call was one on standard output

\* all outcomes of a command: [st, kind, out, f]
Outcomes(c) ==
    LET x == Step(c.st, Rec.script, k, {})
        op == Parse(Rec.script[k]).op
        normal == [st |-> x.st, kind |-> x.kind, out |-> x.out, f |-> c.f]
    IN {normal} \cup
       (IF op \in {"e", "w"} /\ x.kind = "out" /\ c.f > 0
        THEN { [st |-> c.st, kind |-> "err", out |-> <<>>, f |-> c.f - 1],
               [st |-> [c.st EXCEPT !.files = x.st.files], kind |-> "err", out |-> <<>>, f |-> c.f - 1] }
        ELSE {})

Rests(p) == SubSeq(Rec.out, p + 1, Len(Rec.out))
\* positions after an answer; -1 when the output is not looked at
After(p, x) ==
    IF NoOut \/ x.kind = "quit" THEN {p}
    ELSE IF x.kind = "out" THEN (IF p + Len(x.out) <= Len(Rec.out) /\ SubSeq(Rec.out, p + 1, p + Len(x.out)) = x.out
                                 THEN {p + Len(x.out)} ELSE {})
    ELSE IF p < Len(Rec.out) /\ Rec.out[p + 1] = 63
         THEN LET e == { q \in (p + 1)..Len(Rec.out) : Rec.out[q] = NL }
              IN { q \in e : \A z \in e : q <= z }          \* here such an answer is one line
         ELSE {}

FilesAre(fs) == \A n \in DOMAIN fs : n \in DOMAIN Final /\ Final[n] = fs[n]
\* killed now: with the next command not answered, or a part of its answer out
CouldEndHere(c) ==
    \/ NoOut /\ FilesAre(c.st.files)
    \/ c.at = Len(Rec.out) /\ FilesAre(c.st.files)
    \/ k <= Len(Rec.script) /\ \E x \in Outcomes(c) :
          /\ NoOut \/ c.at = Len(Rec.out) \/ (x.kind = "out" /\ IsPrefix(Rests(c.at), x.out)) \/ (x.kind = "err" /\ Rec.out[c.at + 1] = 63)
          /\ FilesAre(x.st.files)

JInit == /\ r \in 1..Len(Recs) /\ k = 1
         /\ S = { [st |-> Empty(FileMap(Recs[r].files0)), at |-> 0, f |-> Recs[r].faults] }
         /\ done = FALSE
         /\ acc = FALSE

JNext == /\ ~done
         /\ acc' = (acc \/ (Killed /\ \E c \in S : CouldEndHere(c)))
         /\ IF S = {} \/ k > Len(Rec.script) THEN done' = TRUE /\ UNCHANGED << r, k, S >>
            ELSE LET line == Rec.script[k]
                     quit == Parse(line).op = "q" /\ ~StartsText(line)
                 IN /\ k' = IF StartsText(line) /\ EndOfText(Rec.script, k + 1) > 0 THEN EndOfText(Rec.script, k + 1) + 1
                            ELSE IF StartsText(line) THEN Len(Rec.script) + 1 ELSE k + 1
                    /\ S' = UNION { UNION { { [st |-> x.st, at |-> p, f |-> x.f] : p \in After(c.at, x) }
                                            : x \in Outcomes(c) } : c \in S }
                    /\ done' = quit
                    /\ UNCHANGED r

\* the permissions of files that were there are kept
ModesKept == \A i \in 1..Len(Rec.files0) :
                LET n == Rec.files0[i].n IN n \in DOMAIN Final => ModeOf(Rec.files, n) = Rec.files0[i].m
Ok == done => IF Killed THEN acc \/ \E c \in S : CouldEndHere(c)
              ELSE /\ \E c \in S : (NoOut \/ c.at = Len(Rec.out)) /\ FilesAre(c.st.files)
                   /\ ModesKept
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> [line |-> k, killed |-> Killed, fault |-> Rec.fault, files |-> Rec.files]]))
=============================================================================
