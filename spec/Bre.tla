-------------------------------- MODULE Bre --------------------------------
(* Basic regular expressions as pkg/regexes offers them: ordinary characters,
   '.', bracket lists, '*' and {m}, {m,}, {m,n}, '^' first and '$' last.
   Expressions and strings are sequences of character codes.                 *)
EXTENDS Integers, Sequences

LOCAL Caret == 94   LOCAL Dollar == 36  LOCAL Dot == 46    LOCAL Star == 42
LOCAL LBrk == 91    LOCAL RBrk == 93    LOCAL LBrc == 123  LOCAL RBrc == 125
LOCAL Comma == 44
INF == 1000000      \* more than any string has characters

IsDigit(ch) == ch >= 48 /\ ch <= 57

\* first index >= i of ch in s (s contains it)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, ch, i) == IF s[i] = ch THEN i ELSE IndexFrom(s, ch, i + 1)

RECURSIVE Number(_)
Number(ds) == IF ds = <<>> THEN 0
              ELSE Number(SubSeq(ds, 1, Len(ds) - 1)) * 10 + (ds[Len(ds)] - 48)

(* ------------------------------- parsing --------------------------------- *)
\* an element: the characters it takes (any: all of them) and how often
Elem(any, chars, min, max) == [any |-> any, chars |-> chars, min |-> min, max |-> max]

\* repetition at position i: [min, max, next]
Count(s, i) ==
    IF i > Len(s) THEN [min |-> 1, max |-> 1, next |-> i]
    ELSE IF s[i] = Star THEN [min |-> 0, max |-> INF, next |-> i + 1]
    ELSE IF s[i] = LBrc THEN
        LET close == IndexFrom(s, RBrc, i)
            body == SubSeq(s, i + 1, close - 1)
            hasComma == \E k \in 1..Len(body) : body[k] = Comma
        IN  IF ~hasComma THEN [min |-> Number(body), max |-> Number(body), next |-> close + 1]
            ELSE LET k == IndexFrom(body, Comma, 1)
                     lo == SubSeq(body, 1, k - 1)
                     hi == SubSeq(body, k + 1, Len(body))
                 IN [min |-> Number(lo), max |-> IF hi = <<>> THEN INF ELSE Number(hi), next |-> close + 1]
    ELSE [min |-> 1, max |-> 1, next |-> i]

RECURSIVE Elems(_, _)
Elems(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET close == IF s[i] = LBrk THEN IndexFrom(s, RBrk, i) ELSE i
             ct == Count(s, close + 1)
             e == IF s[i] = LBrk THEN Elem(FALSE, { s[k] : k \in (i + 1)..(close - 1) }, ct.min, ct.max)
                  ELSE IF s[i] = Dot THEN Elem(TRUE, {}, ct.min, ct.max)
                  ELSE Elem(FALSE, {s[i]}, ct.min, ct.max)
         IN  << e >> \o Elems(s, ct.next)

ParseRe(re) ==
    LET left == Len(re) > 0 /\ re[1] = Caret
        r1 == IF left THEN Tail(re) ELSE re
        right == Len(r1) > 0 /\ r1[Len(r1)] = Dollar
        r2 == IF right THEN SubSeq(r1, 1, Len(r1) - 1) ELSE r1
    IN  [left |-> left, right |-> right, elems |-> Elems(r2, 1)]

(* ------------------------------- meaning --------------------------------- *)
Takes(e, ch) == e.any \/ ch \in e.chars

\* ends of the runs of e that begin after position p of s
RECURSIVE RunLen(_, _, _)
RunLen(e, s, p) == IF p < Len(s) /\ Takes(e, s[p + 1]) THEN 1 + RunLen(e, s, p + 1) ELSE 0
Ends(e, s, p) == LET l == RunLen(e, s, p)
                     hi == IF e.max < l THEN e.max ELSE l
                 IN { p + k : k \in e.min..hi }

RECURSIVE Reach(_, _, _)
Reach(elems, s, P) == IF elems = <<>> \/ P = {} THEN P
                      ELSE Reach(Tail(elems), s, UNION { Ends(Head(elems), s, p) : p \in P })

MatchesParsed(x, s) ==
    LET final == Reach(x.elems, s, IF x.left THEN {0} ELSE 0..Len(s))
    IN  IF x.right THEN Len(s) \in final ELSE final # {}
Matches(re, s) == MatchesParsed(ParseRe(re), s)

(* ------------------- how the code finds out: backtracking ----------------- *)
RECURSIVE Backtrack(_, _, _), TryFrom(_, _, _, _)
TryFrom(elems, s, k, right) ==     \* the longest run first
    /\ k >= Head(elems).min
    /\ \/ Backtrack(Tail(elems), SubSeq(s, k + 1, Len(s)), right)
       \/ TryFrom(elems, s, k - 1, right)
Backtrack(elems, s, right) ==
    IF elems = <<>> THEN ~right \/ s = <<>>
    ELSE LET l == RunLen(Head(elems), s, 0)
         IN TryFrom(elems, s, IF Head(elems).max < l THEN Head(elems).max ELSE l, right)
Search(x, s) == IF x.left THEN Backtrack(x.elems, s, x.right)
                ELSE \E i \in 0..Len(s) : Backtrack(x.elems, SubSeq(s, i + 1, Len(s)), x.right)
=============================================================================
