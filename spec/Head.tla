-------------------------------- MODULE Head --------------------------------
(* head: one transition per operand. *)
EXTENDS Utils
DashN == << 45, 110 >>
RECURSIVE NoZeros(_)
NoZeros(ds) == IF ds # <<>> /\ ds[1] = 48 THEN NoZeros(Tail(ds)) ELSE ds
\* a number of more than nine digits is larger than any file here has lines
NumberOf(ds) == LET z == NoZeros(ds) IN IF Len(z) > 9 THEN 1000000000 ELSE FoldLeft(LAMBDA a, d : a * 10 + (d - 48), 0, z)
Newlines(data) == SelectSeq([i \in 1..Len(data) |-> i], LAMBDA i : data[i] = NL)
\* the first n lines; the last may lack its newline
FirstLines(data, n) == LET at == Newlines(data) IN IF n = 0 THEN <<>> ELSE IF Len(at) >= n THEN SubSeq(data, 1, at[n]) ELSE data

IsNumber(ds) == ds # <<>> /\ \A i \in 1..Len(ds) : ds[i] \in 48..57
\* bad: the number of lines is missing or is not one
RECURSIVE ParseArgs(_, _)
ParseArgs(args, s) ==
    IF args = <<>> THEN s
    ELSE IF args[1] = DashN /\ (Len(args) = 1 \/ ~IsNumber(args[2])) THEN [s EXCEPT !.bad = TRUE]
    ELSE IF args[1] = DashN THEN ParseArgs(SubSeq(args, 3, Len(args)), [s EXCEPT !.n = NumberOf(args[2])])
    ELSE ParseArgs(Tail(args), [s EXCEPT !.todo = Append(@, args[1])])

Title(name) == << 61, 61, 62, 32 >> \o name \o << 32, 60, 61, 61, NL >>
\* outs: the possible outputs (nothing says whether a file that cannot be read gets a title)
Start(args, stdin) ==
    LET p == ParseArgs(args, [n |-> 10, todo |-> <<>>, bad |-> FALSE])
        todo == IF p.bad THEN <<>> ELSE IF p.todo = <<>> THEN << Dash >> ELSE p.todo
    IN [n |-> p.n, todo |-> todo, many |-> Len(todo) > 1, first |-> TRUE, stdin |-> stdin, outs |-> {<<>>}, failed |-> p.bad]
Step(s, files) ==
    LET name == s.todo[1]
        title == IF ~s.many THEN <<>> ELSE (IF s.first THEN <<>> ELSE << NL >>) \o Title(name)
        rest == [s EXCEPT !.todo = Tail(@), !.first = FALSE]
    IN  IF Readable(files, name)
        THEN [rest EXCEPT !.outs = { o \o title \o FirstLines(Content(files, name, s.stdin), s.n) : o \in @ },
                          !.stdin = AfterReading(name, @)]
        ELSE [rest EXCEPT !.outs = @ \cup { o \o title : o \in @ }, !.failed = TRUE]
RECURSIVE Run(_, _)
Run(s, files) == IF s.todo = <<>> THEN s ELSE Run(Step(s, files), files)
=============================================================================
