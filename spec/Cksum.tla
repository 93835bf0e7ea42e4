-------------------------------- MODULE Cksum -------------------------------
(* The POSIX checksum.  A 32-bit value is a pair << high, low >> of 16 bits.
   Definition: the bytes and then the octets of their number, least significant
   first, as one bit string; its remainder modulo the generator polynomial
   0x04C11DB7 (bit by bit division), complemented.                            *)
EXTENDS Utils, Bitwise

Poly == << 1217, 7607 >>                         \* 0x04C1, 0x1DB7
Xor32(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
Zero == << 0, 0 >>

\* one bit: shift left, divide if a one fell out
Bit(s, v) == LET hi == ((s[1] * 2) % 65536) + (s[2] \div 32768)
                 lo == ((s[2] * 2) % 65536) + v
             IN IF s[1] >= 32768 THEN Xor32(<< hi, lo >>, Poly) ELSE << hi, lo >>
BitOf(c, i) == (c \div (2 ^ i)) % 2
BitStep(s, c) == FoldLeft(LAMBDA t, i : Bit(t, BitOf(c, i)), s, << 7, 6, 5, 4, 3, 2, 1, 0 >>)
LenOctets[n \in Nat] == IF n = 0 THEN <<>> ELSE << n % 256 >> \o LenOctets[n \div 256]
\* 32 zero bits at the end: the remainder of data * x^32
Complement(s) == << 65535 - s[1], 65535 - s[2] >>
CrcByBits(data) == Complement(FoldLeft(LAMBDA t, c : BitStep(t, c), Zero, data \o LenOctets[Len(data)] \o << 0, 0, 0, 0 >>))

\* the same a byte at a time, with a table of 256 values
Table == [c \in 0..255 |-> FoldLeft(LAMBDA t, c2 : BitStep(t, c2), Zero, << c, 0, 0, 0, 0 >>)]
ByteStep(table, s, c) == Xor32(<< (s[1] % 256) * 256 + (s[2] \div 256), (s[2] % 256) * 256 >>, table[(s[1] \div 256) ^^ c])
CrcByTable(table, data) == Complement(FoldLeft(LAMBDA t, c : ByteStep(table, t, c), Zero, data \o LenOctets[Len(data)]))

\* decimal digits of a pair: long division
RECURSIVE Decimal32(_)
Decimal32(s) == LET qh == s[1] \div 10
                    rest == (s[1] % 10) * 65536 + s[2]
                    ql == rest \div 10
                IN (IF qh = 0 /\ ql = 0 THEN <<>> ELSE Decimal32(<< qh, ql >>)) \o << 48 + (rest % 10) >>

(* Long inputs: blocks of bytes, each repeated.  Reading a block maps the remainder
   s to s*m + c (products of polynomials modulo the generator), and such maps can be
   composed, so a block read k times takes about log k compositions.              *)
One == << 0, 1 >>
Times2(s) == Bit(s, 0)
BitAt(s, i) == IF i >= 16 THEN (s[1] \div (2 ^ (i - 16))) % 2 ELSE (s[2] \div (2 ^ i)) % 2
Product(a, b) == FoldLeft(LAMBDA t, i : LET d == Times2(t) IN IF BitAt(b, 32 - i) = 1 THEN Xor32(d, a) ELSE d, Zero, [i \in 1..32 |-> i])
Reading(table, block) == [m |-> FoldLeft(LAMBDA t, c : ByteStep(table, t, 0), One, block),
                          c |-> FoldLeft(LAMBDA t, c : ByteStep(table, t, c), Zero, block)]
Then(f, g) == [m |-> Product(f.m, g.m), c |-> Xor32(Product(f.c, g.m), g.c)]
RECURSIVE Repeated(_, _)
Repeated(f, k) == IF k = 0 THEN [m |-> One, c |-> Zero]
                  ELSE IF (k % 2) = 1 THEN Then(Repeated(f, k - 1), f)
                  ELSE LET h == Repeated(f, k \div 2) IN Then(h, h)
\* segs: a sequence of [b |-> bytes, k |-> how often]
\* (the length may be more than TLC counts to: << thousands of millions, the rest >>)
SegsLen(segs) == FoldLeft(LAMBDA t, g : LET n == t[2] + Len(g.b) * g.k IN << t[1] + (n \div 1000000000), n % 1000000000 >>, << 0, 0 >>, segs)
\* 10^9 is 256 * 3906250
BigOctets(t) == IF t[1] = 0 THEN LenOctets[t[2]] ELSE << t[2] % 256 >> \o LenOctets[t[1] * 3906250 + (t[2] \div 256)]
CrcOfSegs(table, segs) ==
    LET all == FoldLeft(LAMBDA f, g : Then(f, Repeated(Reading(table, g.b), g.k)), [m |-> One, c |-> Zero], segs)
    IN Complement(FoldLeft(LAMBDA t, c : ByteStep(table, t, c), all.c, BigOctets(SegsLen(segs))))
SegsLine(table, segs, name) == Decimal32(CrcOfSegs(table, segs)) \o << 32 >> \o BigDigits(SegsLen(segs)[1], SegsLen(segs)[2]) \o name \o << NL >>

\* zero bytes leave the remainder zero, so for n of them only the length counts
CrcOfZeros(table, n) == Complement(FoldLeft(LAMBDA t, c : ByteStep(table, t, c), Zero, LenOctets[n]))
ZerosLine(table, n, name) == Decimal32(CrcOfZeros(table, n)) \o << 32 >> \o Digits(n) \o name \o << NL >>

Line(table, data, name) == Decimal32(CrcByTable(table, data)) \o << 32 >> \o Digits(Len(data)) \o name \o << NL >>

(* ------------------------- the program: one operand a step ---------------- *)
Start(args, stdin) == [todo |-> IF args = <<>> THEN << Dash >> ELSE args, named |-> args # <<>>,
                       stdin |-> stdin, out |-> <<>>, failed |-> FALSE]
Step(table, s, files) ==
    LET n == Head(s.todo) IN
    IF Readable(files, n)
    THEN [s EXCEPT !.todo = Tail(@), !.stdin = AfterReading(n, @),
                   !.out = @ \o Line(table, Content(files, n, s.stdin), IF s.named THEN << 32 >> \o n ELSE <<>>)]
    ELSE [s EXCEPT !.todo = Tail(@), !.failed = TRUE]
=============================================================================
