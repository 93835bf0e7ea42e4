-------------------------------- MODULE Test --------------------------------
(* test, by the number of its arguments.  Arguments are sequences of bytes;
   file(n) tells what the file n is: a record of facts.  The result is 0 (true),
   1 (false) or 2 (not understood).                                            *)
EXTENDS Utils
CONSTANT File(_)
Not == << 33 >>
Letter(a) == IF Len(a) = 2 /\ a[1] = 45 THEN a[2] ELSE 0
Ch(s) == s
\* b c d e f g h L n p S s u z (r w x t need the process's rights or terminal)
Unary == { 98, 99, 100, 101, 102, 103, 104, 76, 110, 112, 83, 115, 117, 122 }
Rights == { 114, 119, 120, 116 }
IsUnary(a) == Letter(a) \in Unary \cup Rights
Bool(b) == IF b THEN 0 ELSE 1
Neg(v) == IF v = 2 THEN 2 ELSE 1 - v
UnaryResult(a, x) ==
    LET l == Letter(a)
        f == File(x)
    IN CASE l = 110 -> Bool(x # <<>>)
         [] l = 122 -> Bool(x = <<>>)
         [] l = 101 -> Bool(f.type # "none")
         [] l = 102 -> Bool(f.type = "regular")
         [] l = 100 -> Bool(f.type = "directory")
         [] l = 112 -> Bool(f.type = "fifo")
         [] l = 83 -> Bool(f.type = "socket")
         [] l = 99 -> Bool(f.type = "char")
         [] l = 98 -> Bool(f.type = "block")
         [] l \in { 104, 76 } -> Bool(f.link)
         [] l = 115 -> Bool(f.type # "none" /\ f.size)
         [] l = 103 -> Bool(f.setgid)
         [] l = 117 -> Bool(f.setuid)
\* integers as digits
IsInt(s) == LET d == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s IN d # <<>> /\ \A i \in 1..Len(d) : d[i] \in 48..57
Abs(s) == LET d == IF s[1] = 45 THEN Tail(s) ELSE s
              nz == SelectSeq([i \in 1..Len(d) |-> i], LAMBDA i : d[i] # 48)
          IN IF nz = <<>> THEN <<>> ELSE SubSeq(d, nz[1], Len(d))
IsNeg(s) == s[1] = 45 /\ Abs(s) # <<>>
Below(x, y) == \/ Len(x) < Len(y)
               \/ Len(x) = Len(y) /\ \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]
Less(s, t) == IF IsNeg(s) # IsNeg(t) THEN IsNeg(s) ELSE IF IsNeg(s) THEN Below(Abs(t), Abs(s)) ELSE Below(Abs(s), Abs(t))
Equal(s, t) == ~Less(s, t) /\ ~Less(t, s)
Op_eq == << 45, 101, 113 >>
Op_ne == << 45, 110, 101 >>
Op_gt == << 45, 103, 116 >>
Op_ge == << 45, 103, 101 >>
Op_lt == << 45, 108, 116 >>
Op_le == << 45, 108, 101 >>
IntOps == { Op_eq, Op_ne, Op_gt, Op_ge, Op_lt, Op_le }
Op_same == << 61 >>
Op_diff == << 33, 61 >>
IsBinary(a) == a \in IntOps \cup { Op_same, Op_diff }
BinaryResult(x, op, y) ==
    IF op = Op_same THEN Bool(x = y)
    ELSE IF op = Op_diff THEN Bool(x # y)
    ELSE IF ~IsInt(x) \/ ~IsInt(y) THEN 2
    ELSE Bool(CASE op = Op_eq -> Equal(x, y)
                [] op = Op_ne -> ~Equal(x, y)
                [] op = Op_gt -> Less(y, x)
                [] op = Op_ge -> ~Less(x, y)
                [] op = Op_lt -> Less(x, y)
                [] op = Op_le -> ~Less(y, x))

Posix2(a) == IF a[1] = Not THEN Bool(a[2] = <<>>) ELSE IF Letter(a[1]) \in Unary THEN UnaryResult(a[1], a[2]) ELSE 2
Posix3(a) == IF IsBinary(a[2]) THEN BinaryResult(a[1], a[2], a[3]) ELSE IF a[1] = Not THEN Neg(Posix2(Tail(a))) ELSE 2
Posix4(a) == IF a[1] = Not THEN Neg(Posix3(Tail(a))) ELSE 2
Posix(a) == CASE Len(a) = 0 -> 1
              [] Len(a) = 1 -> Bool(a[1] # <<>>)
              [] Len(a) = 2 -> Posix2(a)
              [] Len(a) = 3 -> Posix3(a)
              [] Len(a) = 4 -> Posix4(a)
              [] OTHER -> 2

(* What the implementation is known to do instead (known_findings.json), as it
   reads its arguments from the left:
   "first"    a first argument that is '!' or looks like a unary primary is
              taken as that although the second is a binary primary
   "empty"    an empty first argument of several makes it false
   "leftover" words after a unary expression are ignored
   "device"   -a FILE is taken for a test for devices, -b FILE is not known      *)
Known_a == << 45, 97 >>
Known_b == << 45, 98 >>
RECURSIVE AsBuilt(_)
\* [v, why]: the result, and the set of reasons why it may differ
AsBuilt(a) ==
    IF Len(a) <= 1 THEN [v |-> Posix(a), why |-> {}]
    ELSE IF a[1] = Not THEN LET t == AsBuilt(Tail(a)) IN [v |-> Neg(t.v), why |-> t.why \cup (IF Len(a) = 3 /\ IsBinary(a[2]) THEN { "first" } ELSE {})]
    ELSE IF a[1] = <<>> THEN [v |-> 1, why |-> { "empty" }]
    ELSE IF Letter(a[1]) \in (Unary \cup { 97 }) \ { 98 } THEN
         [v |-> IF a[1] = Known_a THEN Bool(File(a[2]).type \in { "char", "block" }) ELSE UnaryResult(a[1], a[2]),
          why |-> (IF Len(a) = 3 /\ IsBinary(a[2]) THEN { "first" } ELSE IF Len(a) > 2 THEN { "leftover" } ELSE {})
                  \cup (IF a[1] = Known_a THEN { "device" } ELSE {})]
    ELSE IF Letter(a[1]) \in Rights THEN [v |-> 2, why |-> IF Len(a) = 3 /\ IsBinary(a[2]) THEN { "first" } ELSE {}]
    ELSE IF Len(a) = 3 /\ IsBinary(a[2]) THEN [v |-> BinaryResult(a[1], a[2], a[3]), why |-> {}]
    ELSE [v |-> 2, why |-> IF a[1] = Known_b THEN { "device" } ELSE {}]
=============================================================================
