------------------------------- MODULE Prompt -------------------------------
(* What cat -u, head and cmp owe to input that has arrived in part.  have is what
   has arrived of every source that can be read (a function from names to bytes),
   closed the set of those that have come to their end.  A program's due is
     outs    what may be written by now (head: titles of files that cannot be
             read are optional), exact says whether it also must be written
     over    whether it has all it needs, and so must have ended
     failed  whether its status is then other than 0 (cmp: rc is its status)    *)
EXTENDS Integers, Sequences, SequencesExt, TLC
C == INSTANCE Cat
H == INSTANCE Head
D == INSTANCE Cmp

RECURSIVE CatDue(_, _, _)
CatDue(ops, have, closed) ==
    IF ops = <<>> THEN [outs |-> {<<>>}, exact |-> TRUE, over |-> TRUE, failed |-> FALSE]
    ELSE LET n == Head(ops) IN
         IF n \notin DOMAIN have THEN [CatDue(Tail(ops), have, closed) EXCEPT !.failed = TRUE]
         ELSE IF n \in closed THEN LET rest == CatDue(Tail(ops), have, closed)
                                   IN [rest EXCEPT !.outs = { have[n] \o o : o \in rest.outs }]
         ELSE [outs |-> { have[n] }, exact |-> TRUE, over |-> FALSE, failed |-> FALSE]

\* s: a state of the machine in Head.tla, with the operands still to do
RECURSIVE HeadDue(_, _, _)
HeadDue(s, have, closed) ==
    IF s.todo = <<>> THEN [outs |-> s.outs, exact |-> TRUE, over |-> TRUE, failed |-> s.failed]
    ELSE LET n == Head(s.todo)
             enough == n \notin DOMAIN have \/ n \in closed \/ Len(H!Newlines(have[n])) >= s.n
             files == [m \in DOMAIN have \ { << 45 >> } |-> have[m]]
             next == H!Step([s EXCEPT !.stdin = IF << 45 >> \in DOMAIN have THEN have[<< 45 >>] ELSE <<>>], files)
         IN  IF enough THEN HeadDue(next, have, closed)
             ELSE [outs |-> next.outs, exact |-> FALSE, over |-> FALSE, failed |-> FALSE]

CmpDue(args, have, closed) ==
    LET ops == D!Operands(args)
        files == [m \in DOMAIN have \ { << 45 >> } |-> have[m]]
        want == D!Outcome(args, files, IF << 45 >> \in DOMAIN have THEN have[<< 45 >>] ELSE <<>>)
        done == [outs |-> { want.out }, exact |-> TRUE, over |-> TRUE, failed |-> want.rc # 0, rc |-> want.rc]
    IN  IF Len(ops) # 2 \/ \E i \in 1..Len(ops) : ops[i] \notin DOMAIN have THEN done
        ELSE LET x == have[ops[1]]
                 y == have[ops[2]]
                 o == D!Options(args)
                 ended == \/ ops[1] \in closed /\ ops[2] \in closed
                          \/ ops[1] \in closed /\ Len(x) < Len(y)
                          \/ ops[2] \in closed /\ Len(y) < Len(x)
             IN  IF ended \/ (~o.l /\ D!Diffs(x, y) # {}) THEN done
                 ELSE [outs |-> { IF o.l /\ ~o.s THEN D!AllDiffs(x, y, D!None) ELSE <<>> }, exact |-> FALSE, over |-> FALSE, failed |-> FALSE, rc |-> 0]

Due(prog, args, have, closed) ==
    CASE prog = "cat" -> CatDue(C!Operands(args), have, closed)
      [] prog = "head" -> HeadDue(H!Start(args, <<>>), have, closed)
      [] OTHER -> CmpDue(args, have, closed)

May(due, out) == \E o \in due.outs : IF due.exact THEN out = o ELSE IsPrefix(out, o)
=============================================================================
