--------------------------------- MODULE Cmp --------------------------------
(* cmp of two files: outcome as a function of the contents, and the machine
   that reads both a byte at a time.                                          *)
EXTENDS Utils
DashL == << 45, 108 >>
DashS == << 45, 115 >>

Least(a, b) == IF a < b THEN a ELSE b
Diffs(x, y) == { i \in 1..Least(Len(x), Len(y)) : x[i] # y[i] }
Same(x, y) == x = y
FirstDiff(x, y) == CHOOSE i \in Diffs(x, y) : \A j \in Diffs(x, y) : i <= j
LineAt(x, i) == Len(SelectSeq(SubSeq(x, 1, i - 1), LAMBDA b : b = NL)) + 1

Text_differ == << 32, 100, 105, 102, 102, 101, 114, 58, 32, 99, 104, 97, 114, 32 >>   \* " differ: char "
Text_line == << 44, 32, 108, 105, 110, 101, 32 >>                                      \* ", line "
DiffLine(n1, n2, i, l) == n1 \o << 32 >> \o n2 \o Text_differ \o i \o Text_line \o l \o << NL >>
ByteLine(i, b1, b2) == i \o << 32 >> \o Octal(b1) \o << 32 >> \o Octal(b2) \o << NL >>

Options(args) == [l |-> \E i \in 1..Len(args) : args[i] = DashL, s |-> \E i \in 1..Len(args) : args[i] = DashS]
Operands(args) == SelectSeq(args, LAMBDA a : a # DashL /\ a # DashS)

\* skip: how many bytes and newlines both files have in common before what is given of them
\* (numbers in pairs: thousands of millions, and the rest)
None == [bytes |-> << 0, 0 >>, lines |-> << 0, 0 >>]
ByteNo(skip, i) == BigDigits(skip.bytes[1], skip.bytes[2] + i)
LineNo(skip, l) == BigDigits(skip.lines[1], skip.lines[2] + l)

AllDiffs(x, y, skip) == LET at == SelectSeq([i \in 1..Least(Len(x), Len(y)) |-> i], LAMBDA i : x[i] # y[i])
                  IN FlattenSeq([k \in 1..Len(at) |-> ByteLine(ByteNo(skip, at[k]), x[at[k]], y[at[k]])])

\* [rc, out, eof]: eof names the file that ended first, if that has to be said
OutcomeAfter(skip, args, files, stdin) ==
    LET o == Options(args)
        ops == Operands(args)
        trouble == [rc |-> 2, out |-> <<>>, eof |-> <<>>]
    IN  IF Len(ops) # 2 THEN trouble
        ELSE IF ~Readable(files, ops[1]) \/ ~Readable(files, ops[2]) THEN trouble
        ELSE LET x == Content(files, ops[1], stdin)
                 y == Content(files, ops[2], stdin)
                 hit == Diffs(x, y) # {}
                 shorter == IF Len(x) < Len(y) THEN ops[1] ELSE ops[2]
                 seen == o.l \/ ~hit     \* did it come to the end of the shorter one?
             IN [rc |-> IF Same(x, y) THEN 0 ELSE 1,
                 out |-> IF o.s THEN <<>>
                         ELSE IF o.l THEN AllDiffs(x, y, skip)
                         ELSE IF hit THEN DiffLine(ops[1], ops[2], ByteNo(skip, FirstDiff(x, y)), LineNo(skip, LineAt(x, FirstDiff(x, y))))
                         ELSE <<>>,
                 eof |-> IF Len(x) # Len(y) /\ seen /\ ~o.s THEN shorter ELSE <<>>]
Outcome(args, files, stdin) == OutcomeAfter(None, args, files, stdin)
=============================================================================
