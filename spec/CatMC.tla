-------------------------------- MODULE CatMC -------------------------------
(* cat copying piece by piece: reads return any part of what is left, writes
   take any part of what was read.  Whatever the pieces, the output is what
   Cat.tla says.  All command lines over a few files are explored and emitted. *)
EXTENDS Cat, Json
CONSTANTS MaxArgs
Names == { <<97>>, <<98>>, <<101>>, Dash, DashU, <<120>> }      \* a b e - -u x; x is not there
Files == (<<97>> :> << 1, 2 >>) @@ (<<98>> :> << 3, 4, 5 >>) @@ (<<101>> :> <<>>)
Stdin == << 7, 8 >>
ArgLists == UNION { [1..n -> Names] : n \in 0..MaxArgs }

VARIABLES args, todo, stdin, left, buf, out, failed, pc
vars == << args, todo, stdin, left, buf, out, failed, pc >>
Init == /\ args \in ArgLists
        /\ todo = Operands(args) /\ stdin = Stdin /\ left = <<>> /\ buf = <<>> /\ out = <<>> /\ failed = FALSE /\ pc = "open"
Open == /\ pc = "open" /\ todo # <<>>
        /\ todo' = Tail(todo)
        /\ LET n == Head(todo) IN
           IF Readable(Files, n)
           THEN /\ left' = Content(Files, n, stdin) /\ stdin' = AfterReading(n, stdin) /\ pc' = "copy" /\ UNCHANGED failed
           ELSE /\ failed' = TRUE /\ UNCHANGED << left, stdin, pc >>
        /\ UNCHANGED << args, buf, out >>
Read == /\ pc = "copy" /\ buf = <<>> /\ left # <<>>
        /\ \E n \in 1..Len(left) : buf' = SubSeq(left, 1, n) /\ left' = SubSeq(left, n + 1, Len(left))
        /\ UNCHANGED << args, todo, stdin, out, failed, pc >>
Write == /\ pc = "copy" /\ buf # <<>>
         /\ \E n \in 1..Len(buf) : out' = out \o SubSeq(buf, 1, n) /\ buf' = SubSeq(buf, n + 1, Len(buf))
         /\ UNCHANGED << args, todo, stdin, left, failed, pc >>
Eof == /\ pc = "copy" /\ buf = <<>> /\ left = <<>> /\ pc' = "open"
       /\ UNCHANGED << args, todo, stdin, left, buf, out, failed >>
Next == Open \/ Read \/ Write \/ Eof
Want == Run(Start(args, Stdin), Files)
Prefix == IsPrefix(out, Want.out)
Done == pc = "open" /\ todo = <<>>
Right == Done => out = Want.out /\ failed = Want.failed
Emit == (pc = "open" /\ todo = Operands(args) /\ out = <<>> /\ stdin = Stdin /\ ~failed) => PrintT(ToJson([args |-> args]))
=============================================================================
