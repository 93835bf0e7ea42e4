--------------------------------- MODULE Cat --------------------------------
(* cat: one transition per operand. *)
EXTENDS Utils
DashU == << 45, 117 >>
Operands(args) == LET ops == Without(args, DashU) IN IF ops = <<>> THEN << Dash >> ELSE ops
Start(args, stdin) == [todo |-> Operands(args), stdin |-> stdin, out |-> <<>>, failed |-> FALSE]
Step(s, files) ==
    LET n == Head(s.todo) IN
    IF Readable(files, n)
    THEN [s EXCEPT !.todo = Tail(@), !.out = @ \o Content(files, n, s.stdin), !.stdin = AfterReading(n, @)]
    ELSE [s EXCEPT !.todo = Tail(@), !.failed = TRUE]
RECURSIVE Run(_, _)
Run(s, files) == IF s.todo = <<>> THEN s ELSE Run(Step(s, files), files)
=============================================================================
