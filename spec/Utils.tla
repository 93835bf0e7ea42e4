-------------------------------- MODULE Utils -------------------------------
(* What the programs of cmd/ have in common.  Names, arguments and contents are
   sequences of bytes; files is a function from names to contents, and a name
   that is not in it cannot be read.                                          *)
EXTENDS Integers, Sequences, SequencesExt, TLC

NL == 10
Dash == << 45 >>
RECURSIVE Digits(_)
Digits(n) == (IF n >= 10 THEN Digits(n \div 10) ELSE <<>>) \o << 48 + (n % 10) >>
RECURSIVE Octal(_)
Octal(n) == (IF n >= 8 THEN Octal(n \div 8) ELSE <<>>) \o << 48 + (n % 8) >>
\* g * 10^9 + n, with n below 10^9 or a little more
Nine(n) == LET d == Digits(n) IN [i \in 1..(9 - Len(d)) |-> 48] \o d
BigDigits(g, n) == LET h == g + (n \div 1000000000) IN IF h = 0 THEN Digits(n) ELSE Digits(h) \o Nine(n % 1000000000)
FileMap(fs) == LET ix == [n \in { fs[i].n : i \in 1..Len(fs) } |-> (CHOOSE i \in 1..Len(fs) : fs[i].n = n)]
               IN [n \in DOMAIN ix |-> fs[ix[n]].d]
Readable(files, n) == n = Dash \/ n \in DOMAIN files
\* the content of an operand; what is left of the standard input, for '-'
Content(files, n, stdin) == IF n = Dash THEN stdin ELSE files[n]
AfterReading(n, stdin) == IF n = Dash THEN <<>> ELSE stdin
Without(args, x) == SelectSeq(args, LAMBDA a : a # x)
HasInfix(s, x) == \E i \in 0..(Len(s) - Len(x)) : SubSeq(s, i + 1, i + Len(x)) = x
=============================================================================
