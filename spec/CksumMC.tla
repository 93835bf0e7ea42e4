------------------------------- MODULE CksumMC ------------------------------
(* The table-driven checksum agrees with the division bit by bit, for every
   single byte and for strings over a few bytes; every input is emitted.      *)
EXTENDS Cksum, Json
CONSTANTS MaxLen, Alphabet
VARIABLE data
Init == /\ data \in { << c >> : c \in 0..255 } \cup { <<>> }
Next == /\ Len(data) < MaxLen
        /\ (IF data = <<>> THEN TRUE ELSE data[Len(data)] \in Alphabet)
        /\ \E c \in Alphabet : data' = Append(data, c)
Agree == CrcByTable(Table, data) = CrcByBits(data)
\* a checksum tells strings that differ in one byte apart
OneByte == \A i \in 1..Len(data) : \A c \in Alphabet :
              c # data[i] => CrcByTable(Table, [data EXCEPT ![i] = c]) # CrcByTable(Table, data)
Zeros == (\A i \in 1..Len(data) : data[i] = 0) => CrcByTable(Table, data) = CrcOfZeros(Table, Len(data))
\* blocks read several times
RECURSIVE Often(_, _)
Often(d, k) == IF k = 0 THEN <<>> ELSE d \o Often(d, k - 1)
Segments == Len(data) > 2 \/ \A k \in 0..5 : \A pre \in { <<>>, << 200, 7 >> } :
    CrcOfSegs(Table, << [b |-> pre, k |-> 1], [b |-> data, k |-> k], [b |-> << 3 >>, k |-> 2] >>) = CrcByTable(Table, pre \o Often(data, k) \o << 3, 3 >>)
Emit == PrintT(ToJson([data |-> data]))
=============================================================================
