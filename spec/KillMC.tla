-------------------------------- MODULE KillMC ------------------------------
(* The program reads its command line word by word and then signals one process
   after the other.  Checked: when it ends, every process has been sent exactly
   what the declarative meaning says; before the whole line is understood nobody
   has been sent anything; a process that cannot be signalled stops nothing.

   Hasty = TRUE is the refuted design that signals each operand as it reads it. *)
EXTENDS Kill, Json
CONSTANTS MaxOps, Hasty
A == << 49 >>
B == << 50 >>
Foreign == << 51 >>
Gone == << 52 >>
Junk == << 120 >>
MCKind(p) == IF p \in { A, B } THEN "own" ELSE IF p = Foreign THEN "foreign" ELSE "none"
Operands == { A, B, Foreign, Gone, Junk }
Opts == { <<>>, << Dash_s, << 104, 85, 112 >> >>, << Dash_s, << 48 >> >>, << Dash_s, << 66, 79, 71 >> >>, << << 45, 52, 48 >> >>, << << 45, 57, 57 >> >>, << << 45, 49, 120 >> >> }
Ops == UNION { [1..n -> Operands] : n \in 0..MaxOps }
VARIABLES args, at, sig, pids, sent, status
vars == << args, at, sig, pids, sent, status >>
\* at: words read so far, then operands signalled so far; status: "reading", "sending", or the exit status
Init == /\ \E o \in Opts, p \in Ops : args = o \o p
        /\ at = 0 /\ sig = Term /\ pids = <<>> /\ status = "reading"
        /\ sent = [p \in { A, B, Foreign } |-> <<>>]
Word == args[at + 1]
Can(p) == MCKind(p) = "own" /\ ValidSignal(sig)
Deliver(p) == IF Can(p) /\ sig # 0 THEN [sent EXCEPT ![p] = Append(@, sig)] ELSE sent
Read == /\ status = "reading" /\ at < Len(args)
        /\ IF at = 0 /\ Word = Dash_s
           THEN IF Len(args) < 2 \/ Named(args[2]) = None THEN status' = "bad" /\ UNCHANGED << args, at, sig, pids, sent >>
                ELSE sig' = Named(args[2]) /\ at' = 2 /\ UNCHANGED << args, pids, sent, status >>
           ELSE IF at = 0 /\ IsDash(Word)
           THEN IF Numbered(Tail(Word)) = None THEN status' = "bad" /\ UNCHANGED << args, at, sig, pids, sent >>
                ELSE sig' = Numbered(Tail(Word)) /\ at' = 1 /\ UNCHANGED << args, pids, sent, status >>
           ELSE IF ~IsPid(Word) THEN status' = "bad" /\ UNCHANGED << args, at, sig, pids, sent >>
           ELSE pids' = Append(pids, Word) /\ at' = at + 1 /\ sent' = (IF Hasty THEN Deliver(Word) ELSE sent) /\ UNCHANGED << args, sig, status >>
Turn == /\ status = "reading" /\ at = Len(args)
        /\ status' = (IF pids = <<>> THEN "bad" ELSE IF Hasty THEN IF \A i \in 1..Len(pids) : Can(pids[i]) THEN "0" ELSE "failed" ELSE "sending")
        /\ at' = 0 /\ UNCHANGED << args, sig, pids, sent >>
Send == /\ status \in { "sending", "trouble" } /\ at < Len(pids)
        /\ LET p == pids[at + 1] IN
           /\ sent' = Deliver(p)
           /\ status' = IF Can(p) THEN status ELSE "trouble"
        /\ at' = at + 1 /\ UNCHANGED << args, sig, pids >>
End == /\ status \in { "sending", "trouble" } /\ at = Len(pids)
       /\ status' = (IF status = "sending" THEN "0" ELSE "failed") /\ UNCHANGED << args, at, sig, pids, sent >>
Next == Read \/ Turn \/ Send \/ End
Final == status \in { "0", "failed", "bad" }
Right == Final => /\ \A p \in DOMAIN sent : sent[p] = [i \in 1..Wanted(args, p) |-> Meaning(args).sig]
                  /\ (status = "0") = Success(args)
NothingYet == status \in { "reading", "bad" } => \A p \in DOMAIN sent : sent[p] = <<>>
NeverMore == \A p \in DOMAIN sent : Len(sent[p]) <= Wanted(args, p)
Emit == status # "reading" \/ at # 0 \/ PrintT(ToJson([args |-> args]))
=============================================================================
