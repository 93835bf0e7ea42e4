-------------------------------- MODULE Kill --------------------------------
(* kill [-s NAME | -NUMBER] pid...

   Words are sequences of bytes.  A process is "own" (may be signalled), "foreign"
   (exists, may not be signalled) or "none".  The state is what the program has
   read of its command line, and the signals every process has been sent.       *)
EXTENDS Utils
CONSTANT Kind(_)        \* what the process written as this operand is
Upper(w) == [i \in 1..Len(w) |-> IF w[i] \in 97..122 THEN w[i] - 32 ELSE w[i]]
Names == << [n |-> << 48 >>, s |-> 0],
            [n |-> << 72, 85, 80 >>, s |-> 1],              \* HUP
            [n |-> << 73, 78, 84 >>, s |-> 2],              \* INT
            [n |-> << 81, 85, 73, 84 >>, s |-> 3],          \* QUIT
            [n |-> << 65, 66, 82, 84 >>, s |-> 6],          \* ABRT
            [n |-> << 75, 73, 76, 76 >>, s |-> 9],          \* KILL
            [n |-> << 65, 76, 82, 77 >>, s |-> 14],         \* ALRM
            [n |-> << 84, 69, 82, 77 >>, s |-> 15] >>       \* TERM
Term == 15
None == 0 - 1
Named(w) == LET at == { i \in DOMAIN Names : Names[i].n = Upper(w) } IN IF at = {} THEN None ELSE Names[CHOOSE i \in at : TRUE].s
AllDigits(w) == w # <<>> /\ \A i \in 1..Len(w) : w[i] \in 48..57
RECURSIVE Value(_)
Value(w) == IF w = <<>> THEN 0 ELSE 10 * Value(SubSeq(w, 1, Len(w) - 1)) + (w[Len(w)] - 48)
Numbered(w) == IF AllDigits(w) /\ Len(w) <= 6 THEN Value(w) ELSE None
IsDash(w) == w # <<>> /\ w[1] = 45
Dash_s == << 45, 115 >>
\* process numbers have at most nine digits
IsPid(w) == AllDigits(w) /\ Len(w) <= 9

(* What a command line means: [ok, sig, pids]. *)
Meaning(args) ==
    LET sopt == args # <<>> /\ args[1] = Dash_s
        nopt == args # <<>> /\ ~sopt /\ IsDash(args[1])
        sig == IF sopt THEN IF Len(args) < 2 THEN None ELSE Named(args[2]) ELSE IF nopt THEN Numbered(Tail(args[1])) ELSE Term
        ops == SubSeq(args, (IF sopt THEN 3 ELSE IF nopt THEN 2 ELSE 1), Len(args))
    IN [ok |-> sig # None /\ ops # <<>> /\ \A i \in 1..Len(ops) : IsPid(ops[i]), sig |-> sig, pids |-> ops]
ValidSignal(s) == s \in 0..64
Times(seq, x) == Cardinality({ i \in 1..Len(seq) : seq[i] = x })
Wanted(args, p) == LET m == Meaning(args) IN IF m.ok /\ m.sig \in 1..64 /\ Kind(p) = "own" THEN Times(m.pids, p) ELSE 0
Success(args) == LET m == Meaning(args) IN m.ok /\ ValidSignal(m.sig) /\ \A i \in 1..Len(m.pids) : Kind(m.pids[i]) = "own"
=============================================================================
