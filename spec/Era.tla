--------------------------------- MODULE Era --------------------------------
(* An era description, direction:offset:start:end:name:format, as a sequence of
   bytes; the format is everything after the fifth colon.                      *)
EXTENDS Utils
Colon == 58
Cuts(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = Colon)
Field(s, k) == LET at == << 0 >> \o Cuts(s) IN SubSeq(s, at[k] + 1, at[k + 1] - 1)
Rest(s) == SubSeq(s, Cuts(s)[5] + 1, Len(s))
IsNumber(s) == LET d == IF s # <<>> /\ s[1] \in { 43, 45 } THEN Tail(s) ELSE s IN d # <<>> /\ \A i \in 1..Len(d) : d[i] \in 48..57
Good(s) == Len(Cuts(s)) >= 5 /\ Field(s, 1) \in { << 43 >>, << 45 >> } /\ IsNumber(Field(s, 2))
\* decimal, without superfluous zeros or plus sign
Plain(s) == LET neg == s[1] = 45
                d == IF s[1] \in { 43, 45 } THEN Tail(s) ELSE s
                nz == SelectSeq([i \in 1..Len(d) |-> i], LAMBDA i : d[i] # 48)
                m == IF nz = <<>> THEN << 48 >> ELSE SubSeq(d, nz[1], Len(d))
            IN IF neg /\ m # << 48 >> THEN << 45 >> \o m ELSE m
EraOf(s) == [reverse |-> Field(s, 1) = << 45 >>, offset |-> Plain(Field(s, 2)), startdate |-> Field(s, 3), enddate |-> Field(s, 4), name |-> Field(s, 5), format |-> Rest(s)]
=============================================================================
