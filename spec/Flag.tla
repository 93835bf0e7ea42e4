-------------------------------- MODULE Flag --------------------------------
(* Command lines by the POSIX utility syntax guidelines.  An argument is a
   sequence of characters (code points; bytes that are no characters have
   numbers above them).  kinds maps the registered letters to "bool", "string"
   or "int".  The result of parsing: fault, operands and the value each given
   option ends up with (a bool has <<>>, an int its decimal digits).           *)
EXTENDS Utils
Minus == 45
Plus == 43
Under == 95
Zero == 48
Lower(ch) == IF ch \in 65..90 THEN ch + 32 ELSE ch
DigitVal(ch) == LET l == Lower(ch) IN IF l \in 48..57 THEN l - 48 ELSE IF l \in 97..122 THEN l - 87 ELSE 99

(* ------------------------------------------- integers, as decimal digits *)
\* ds * base + d
RECURSIVE MulAdd(_, _, _)
MulAdd(ds, base, d) ==
    IF ds = <<>> THEN IF d = 0 THEN <<>> ELSE MulAdd(<<>>, base, d \div 10) \o << d % 10 >>
    ELSE LET x == ds[Len(ds)] * base + d
         IN MulAdd(SubSeq(ds, 1, Len(ds) - 1), base, x \div 10) \o << x % 10 >>
NotAbove(xs, ys) == \/ Len(xs) < Len(ys)
                    \/ Len(xs) = Len(ys) /\ (xs = ys \/ \E i \in 1..Len(xs) : xs[i] < ys[i] /\ \A j \in 1..(i - 1) : xs[j] = ys[j])
MaxPos == << 9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7 >>
MaxNeg == [MaxPos EXCEPT ![19] = 8]
NoInt == << -1 >>
\* the characters of the decimal form of a Go integer literal that fits 64 bits, or NoInt
IntValue(s) ==
    LET signed == s # <<>> /\ s[1] \in { Plus, Minus }
        neg == s # <<>> /\ s[1] = Minus
        t == IF signed THEN Tail(s) ELSE s
        pre == IF Len(t) >= 3 /\ t[1] = Zero /\ Lower(t[2]) \in { 98, 111, 120 } THEN 2 ELSE IF t # <<>> /\ t[1] = Zero THEN 1 ELSE 0
        base == IF pre = 0 THEN 10 ELSE IF pre = 1 THEN 8 ELSE IF Lower(t[2]) = 98 THEN 2 ELSE IF Lower(t[2]) = 111 THEN 8 ELSE 16
        body == SubSeq(t, pre + 1, Len(t))
        isDig(i) == i \in 1..Len(body) /\ body[i] # Under
        ds == SelectSeq(body, LAMBDA ch : ch # Under)
        wellFormed == /\ (pre = 0 => ds # <<>>)
                      /\ \A i \in 1..Len(body) : body[i] = Under => (isDig(i + 1) /\ (isDig(i - 1) \/ (i = 1 /\ pre > 0)))
                      /\ \A i \in 1..Len(ds) : DigitVal(ds[i]) < base
    IN IF ~wellFormed THEN NoInt
       ELSE LET big == FoldLeft(LAMBDA acc, ch : MulAdd(acc, base, DigitVal(ch)), <<>>, ds)
            IN IF ~NotAbove(big, IF neg THEN MaxNeg ELSE MaxPos) THEN NoInt
               ELSE IF big = <<>> THEN << Zero >>
               ELSE (IF neg THEN << Minus >> ELSE <<>>) \o [i \in 1..Len(big) |-> 48 + big[i]]

(* ------------------------------------------------------------- parsing *)
Set(vals, l, v) == (l :> v) @@ vals
RECURSIVE ParseFrom(_, _, _)
\* the letters of one argument, then the rest
RECURSIVE Bundle(_, _, _, _)
Bundle(kinds, cs, rest, vals) ==
    LET fault == [fault |-> TRUE, ops |-> <<>>, vals |-> vals]
    IN IF cs = <<>> THEN ParseFrom(kinds, rest, vals)
       ELSE IF cs[1] \notin DOMAIN kinds THEN fault
       ELSE IF kinds[cs[1]] = "bool" THEN Bundle(kinds, Tail(cs), rest, Set(vals, cs[1], <<>>))
       ELSE IF Len(cs) = 1 /\ rest = <<>> THEN fault
       ELSE LET v == IF Len(cs) > 1 THEN Tail(cs) ELSE rest[1]
                left == IF Len(cs) > 1 THEN rest ELSE Tail(rest)
                val == IF kinds[cs[1]] = "int" THEN IntValue(v) ELSE v
            IN IF val = NoInt THEN fault ELSE ParseFrom(kinds, left, Set(vals, cs[1], val))
ParseFrom(kinds, args, vals) ==
    IF args = <<>> THEN [fault |-> FALSE, ops |-> <<>>, vals |-> vals]
    ELSE LET a == args[1] IN
         IF a = << Minus, Minus >> THEN [fault |-> FALSE, ops |-> Tail(args), vals |-> vals]
         ELSE IF Len(a) < 2 \/ a[1] # Minus THEN [fault |-> FALSE, ops |-> args, vals |-> vals]
         ELSE Bundle(kinds, Tail(a), Tail(args), vals)
Parse(kinds, args) == ParseFrom(kinds, args, <<>>)
=============================================================================
