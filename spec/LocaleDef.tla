------------------------------ MODULE LocaleDef -----------------------------
(* Locale definition texts: which are well formed, and the monetary settings in
   them.  A text is a sequence of characters (code points).                    *)
EXTENDS Utils, FiniteSets
Blank == { 9, 32 }
Upper == (65..90) \cup { 95 }
LowerCh == (97..122) \cup { 95 }
Dig == 48..57
SymCh == Upper \cup LowerCh \cup Dig \cup { 45 }
Quote == 34
Semi == 59
LinesOf(s) == LET at == << 0 >> \o SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = NL) \o << Len(s) + 1 >>
              IN [i \in 1..(Len(at) - 1) |-> SubSeq(s, at[i] + 1, at[i + 1] - 1)]

(* -------------------------------- from the text to its logical lines *)
Word_comment == << 99, 111, 109, 109, 101, 110, 116, 95, 99, 104, 97, 114 >>
Word_escape == << 101, 115, 99, 97, 112, 101, 95, 99, 104, 97, 114 >>
TrimL(s) == LET n == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] \notin Blank) IN IF n = <<>> THEN <<>> ELSE SubSeq(s, n[1], Len(s))
TrimR(s) == LET n == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] \notin Blank) IN IF n = <<>> THEN <<>> ELSE SubSeq(s, 1, n[Len(n)])
Trim(s) == TrimR(TrimL(s))
\* "word c": the character, or 0
Special(line, word) == IF Len(line) > Len(word) + 1 /\ SubSeq(line, 1, Len(word)) = word /\ line[Len(word) + 1] \in Blank
                          /\ Len(Trim(SubSeq(line, Len(word) + 1, Len(line)))) = 1
                       THEN Trim(SubSeq(line, Len(word) + 1, Len(line)))[1] ELSE 0
\* fold over the lines; open: the last logical line is still to be continued
Fresh == [out |-> <<>>, open |-> FALSE, com |-> 35, esc |-> 92]
Put(st, l) == LET full == IF st.open THEN st.out[Len(st.out)] \o l ELSE l
                  more == full # <<>> /\ full[Len(full)] = st.esc
                  kept == IF more THEN SubSeq(full, 1, Len(full) - 1) ELSE full
              IN [st EXCEPT !.open = more, !.out = IF st.open THEN [@ EXCEPT ![Len(@)] = kept] ELSE Append(@, kept)]
PreStep(st, l) ==
    IF st.open THEN Put(st, Trim(l))
    ELSE IF l # <<>> /\ l[1] = st.com THEN st
    ELSE IF Special(l, Word_comment) # 0 THEN [st EXCEPT !.com = Special(l, Word_comment)]
    ELSE IF Special(l, Word_escape) # 0 THEN [st EXCEPT !.esc = Special(l, Word_escape)]
    ELSE Put(st, l)
Pre(text) == FoldLeft(PreStep, Fresh, LinesOf(text))
Logical(pre) == SelectSeq(pre.out, LAMBDA l : l # <<>>)

(* ------------------------------------------------------ kinds of values *)
SplitAt(s, sep) == LET at == << 0 >> \o SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = sep) \o << Len(s) + 1 >>
                   IN [i \in 1..(Len(at) - 1) |-> SubSeq(s, at[i] + 1, at[i + 1] - 1)]
All(ss, P(_)) == \A i \in 1..Len(ss) : P(ss[i])
IsSymbol(s) == Len(s) >= 3 /\ s[1] = 60 /\ s[Len(s)] = 62 /\ \A i \in 2..(Len(s) - 1) : s[i] \in SymCh
IsSymbols(s) == LET p == SplitAt(s, Semi) IN All(p, IsSymbol)
IsPair(s) == LET p == SplitAt(s, 44) IN Len(p) = 2 /\ Len(p[1]) > 1 /\ Len(p[2]) > 1 /\ p[1][1] = 40 /\ p[2][Len(p[2])] = 41
                                       /\ IsSymbol(Tail(p[1])) /\ IsSymbol(SubSeq(p[2], 1, Len(p[2]) - 1))
IsPairs(s) == LET p == SplitAt(s, Semi) IN All(p, IsPair)
IsInt(s) == LET d == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s IN d # <<>> /\ \A i \in 1..Len(d) : d[i] \in Dig
IsInts(s) == LET p == SplitAt(s, Semi) IN All(p, IsInt)
Hex == Dig \cup (65..70) \cup (97..102)
\* length of the escape sequence at i (its escape character included), 0 if it is none
Escape(s, i, esc) ==
    LET at(k) == IF i + k <= Len(s) THEN s[i + k] ELSE 0
    IN IF at(1) \in { 44, 59, 60, 62, esc } THEN 2
       ELSE IF at(1) \in 48..55 /\ at(2) \in 48..55 /\ at(3) \in 48..55 THEN 4
       ELSE IF at(1) = 100 /\ at(2) \in Dig /\ at(3) \in Dig THEN IF at(4) \in Dig THEN 5 ELSE 4
       ELSE IF at(1) = 120 /\ at(2) \in Hex /\ at(3) \in Hex THEN 4
       ELSE 0
\* position after the string that begins at i, 0 if there is none
RECURSIVE StrEnd(_, _, _)
StrEnd(s, i, esc) == IF i > Len(s) THEN 0
                     ELSE IF s[i] = esc THEN IF Escape(s, i, esc) = 0 THEN 0 ELSE StrEnd(s, i + Escape(s, i, esc), esc)
                     ELSE IF s[i] = Quote THEN i + 1
                     ELSE StrEnd(s, i + 1, esc)
StringAt(s, i, esc) == IF i <= Len(s) /\ s[i] = Quote THEN StrEnd(s, i + 1, esc) ELSE 0
IsString(s, esc) == s # <<>> /\ StringAt(s, 1, esc) = Len(s) + 1
IsText(s, esc) == IsString(s, esc) /\ Len(s) > 2                    \* not empty
RECURSIVE TextsFrom(_, _, _)
TextsFrom(s, i, esc) == LET e == StringAt(s, i, esc)
                        IN e > i + 2 /\ (e = Len(s) + 1 \/ (s[e] = Semi /\ TextsFrom(s, e + 1, esc)))
IsExpr(s) == Len(s) > 2 /\ s[1] = Quote /\ s[Len(s)] = Quote /\ \A i \in 2..(Len(s) - 1) : s[i] # Quote
Fits(kind, s, esc) == CASE kind = "symbols" -> IsSymbols(s)
                        [] kind = "pairs" -> IsPairs(s)
                        [] kind = "string" -> IsString(s, esc)
                        [] kind = "text" -> IsText(s, esc)
                        [] kind = "texts" -> TextsFrom(s, 1, esc)
                        [] kind = "int" -> IsInt(s)
                        [] kind = "ints" -> IsInts(s)
                        [] kind = "expr" -> IsExpr(s)

(* ------------------------------------------------------------- keywords *)
CONSTANT Keys                \* function: category name -> function: keyword -> kind
Cats == DOMAIN Keys
Word_END == << 69, 78, 68 >>
Word_COLLATE == << 76, 67, 95, 67, 79, 76, 76, 65, 84, 69 >>
Word_start == << 111, 114, 100, 101, 114, 95, 115, 116, 97, 114, 116 >>
Word_end == << 111, 114, 100, 101, 114, 95, 101, 110, 100 >>
OrderWords == { << 102, 111, 114, 119, 97, 114, 100 >>, << 98, 97, 99, 107, 119, 97, 114, 100 >>, << 112, 111, 115, 105, 116, 105, 111, 110 >> }
\* first word and the rest after the blanks
FirstWord(l) == LET t == TrimL(l)
                    n == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] \in Blank)
                IN IF n = <<>> THEN << t, <<>> >> ELSE << SubSeq(t, 1, n[1] - 1), TrimL(SubSeq(t, n[1], Len(t))) >>
IsHeader(l) == l # <<>> /\ l[1] \notin Blank /\ TrimR(l) \in Cats \cup { Word_COLLATE }
IsTrailer(l, cat) == FirstWord(l)[1] = Word_END /\ TrimR(FirstWord(l)[2]) = cat

\* the acceptor: at is the category it is in (<<>>: none), n the keywords seen, ord 0 before, 1 in, 2 after the order list
Begin == [ok |-> TRUE, at |-> <<>>, n |-> 0, ord |-> 0]
No(st) == [st EXCEPT !.ok = FALSE]
Accept(st, l, esc) ==
    IF ~st.ok THEN st
    ELSE IF st.at = <<>> THEN IF IsHeader(l) THEN [st EXCEPT !.at = TrimR(l), !.n = 0, !.ord = 0] ELSE No(st)
    ELSE IF st.at = Word_COLLATE THEN
        LET w == FirstWord(l) IN
        IF st.ord = 0 THEN IF w[1] = Word_start /\ (TrimR(w[2]) \in OrderWords \cup { <<>> }) THEN [st EXCEPT !.ord = 1] ELSE No(st)
        ELSE IF st.ord = 1 THEN IF IsSymbol(l) THEN [st EXCEPT !.n = @ + 1]
                                ELSE IF l = Word_end /\ st.n > 0 THEN [st EXCEPT !.ord = 2] ELSE No(st)
        ELSE IF IsTrailer(l, st.at) THEN [st EXCEPT !.at = <<>>] ELSE No(st)
    ELSE IF IsTrailer(l, st.at) THEN IF st.n > 0 THEN [st EXCEPT !.at = <<>>] ELSE No(st)
    ELSE LET w == FirstWord(l) IN
         IF w[1] \in DOMAIN Keys[st.at] /\ Fits(Keys[st.at][w[1]], w[2], esc) THEN [st EXCEPT !.n = @ + 1] ELSE No(st)
Accepted(ls, esc) == ls # <<>> /\ LET e == FoldLeft(LAMBDA st, l : Accept(st, l, esc), Begin, ls) IN e.ok /\ e.at = <<>>
WellFormed(text) == LET p == Pre(text) IN ~p.open /\ Accepted(Logical(p), p.esc)
=============================================================================
