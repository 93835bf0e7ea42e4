--------------------------------- MODULE Ed ---------------------------------
(* ed as a state machine over the lines a user types.

   A line is a sequence of bytes without newline.  The state of an editor:
     lines  the buffer
     nl     whether the last line ends in a newline (it does unless it came so
            from a file)
     cur    number of the current line, 0 only for an empty buffer
            (or after a command that added no text before line 1)
     name   the remembered file name, <<>> if there is none
     files  the files there are: a function from names to contents
   Step(st, script, k, bad) is what the command on line k of a script does:
     st     the state after it
     next   the line of the next command
     kind   "out" (the answer is out), "err" (an answer that starts with '?'),
            "quit" (no answer, nothing after it is read)
   bad is a set of names that can be neither read nor written.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Bre

NL == 10
LOCAL Blank(ch) == ch = 32 \/ ch = 9
LOCAL Comma == 44   LOCAL Semi == 59    LOCAL Slash == 47   LOCAL Quest == 63
LOCAL Quote == 39   LOCAL Dollar == 36  LOCAL Dot == 46     LOCAL BSlash == 92
LOCAL Plus == 43    LOCAL Minus == 45
LOCAL Lower(ch) == ch >= 97 /\ ch <= 122

Rest(s, i) == SubSeq(s, i, Len(s))
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1

RECURSIVE SkipBlanks(_, _)
SkipBlanks(s, i) == IF Blank(At(s, i)) THEN SkipBlanks(s, i + 1) ELSE i
RECURSIVE SkipDigits(_, _)
SkipDigits(s, i) == IF IsDigit(At(s, i)) THEN SkipDigits(s, i + 1) ELSE i

Huge == 1000000000      \* stands for any number of ten or more digits
RECURSIVE NoZeros(_)
NoZeros(ds) == IF ds # <<>> /\ ds[1] = 48 THEN NoZeros(Tail(ds)) ELSE ds
Decimal(ds) == LET z == NoZeros(ds) IN IF Len(z) > 9 THEN Huge ELSE Number(z)

RECURSIVE Digits(_)
Digits(n) == (IF n >= 10 THEN Digits(n \div 10) ELSE <<>>) \o << 48 + (n % 10) >>

(* ------------------------------- addresses ------------------------------- *)
NoAddr == [kind |-> "none", n |-> 0, re |-> <<>>, off |-> 0]

\* position of the delimiter that ends an expression begun before i, 0 if there is none
RECURSIVE EndOfRe(_, _, _)
EndOfRe(s, i, delim) ==
    IF i > Len(s) THEN 0
    ELSE IF s[i] = delim THEN i
    ELSE IF s[i] = BSlash /\ At(s, i + 1) = delim THEN EndOfRe(s, i + 2, delim)
    ELSE EndOfRe(s, i + 1, delim)

\* \/ in an expression is a plain /
RECURSIVE Unescape(_)
Unescape(s) == IF s = <<>> THEN <<>>
               ELSE IF s[1] = BSlash /\ At(s, 2) = Slash THEN << Slash >> \o Unescape(Rest(s, 3))
               ELSE << s[1] >> \o Unescape(Tail(s))

\* the address at i, if any: [a, next]
Base(s, i) ==
    LET ch == At(s, i) IN
    IF IsDigit(ch) THEN LET j == SkipDigits(s, i)
                        IN [a |-> [NoAddr EXCEPT !.kind = "num", !.n = Decimal(SubSeq(s, i, j - 1))], next |-> j]
    ELSE IF ch = Dot THEN [a |-> [NoAddr EXCEPT !.kind = "cur"], next |-> i + 1]
    ELSE IF ch = Dollar THEN [a |-> [NoAddr EXCEPT !.kind = "last"], next |-> i + 1]
    ELSE IF ch = Quote /\ Lower(At(s, i + 1)) THEN [a |-> [NoAddr EXCEPT !.kind = "nyi"], next |-> i + 2]
    ELSE IF ch = Slash \/ ch = Quest THEN
        LET e == EndOfRe(s, i + 1, ch) IN
        IF e <= i + 1 THEN [a |-> NoAddr, next |-> i]
        ELSE [a |-> IF ch = Slash THEN [NoAddr EXCEPT !.kind = "re", !.re = Unescape(SubSeq(s, i + 1, e - 1))]
                    ELSE [NoAddr EXCEPT !.kind = "nyi"],      \* backward search is not implemented
              next |-> e + 1]
    ELSE [a |-> NoAddr, next |-> i]

AddrAt(s, i) ==
    LET x == Base(s, i) IN
    IF x.a.kind # "none" /\ (At(s, x.next) = Plus \/ At(s, x.next) = Minus)
    THEN LET j == SkipDigits(s, x.next + 1)
             ds == SubSeq(s, x.next + 1, j - 1)
             n == IF ds = <<>> THEN 1 ELSE Decimal(ds)
         IN [a |-> [x.a EXCEPT !.off = IF s[x.next] = Plus THEN n ELSE 0 - n], next |-> j]
    ELSE x

\* [from, sep, to, next]: addresses and separator at the start of s, blanks between them
AddrsAt(s) ==
    LET x == AddrAt(s, SkipBlanks(s, 1))
        i == SkipBlanks(s, x.next)
        sep == IF At(s, i) = Comma \/ At(s, i) = Semi THEN s[i] ELSE 0
        y == IF sep = 0 THEN [a |-> NoAddr, next |-> i] ELSE AddrAt(s, SkipBlanks(s, i + 1))
    IN  [from |-> x.a, sep |-> sep, to |-> y.a, next |-> SkipBlanks(s, y.next)]

(* ------------------------------- commands -------------------------------- *)
\* does text follow this line?  (also when the addresses make no sense)
StartsText(s) ==
    LET x == AddrAt(s, SkipBlanks(s, 1))
        i == SkipBlanks(s, x.next)
        j == IF At(s, i) = Comma \/ At(s, i) = Semi THEN SkipBlanks(s, i + 1) ELSE i
        y == AddrAt(s, j)
        k == SkipBlanks(s, y.next)
    IN  At(s, k) \in {97, 99, 105} /\ SkipBlanks(s, k + 1) = Len(s) + 1

Cmd(op) == [op |-> op, from |-> NoAddr, sep |-> 0, to |-> NoAddr, arg |-> <<>>]
BadCmd == Cmd("bad")

Parse(s) ==
    LET i == SkipBlanks(s, 1)
        x == AddrsAt(s)
        ch == At(s, x.next)
        after == x.next + 1
        bare == SkipBlanks(s, after) = Len(s) + 1          \* nothing but blanks follows
        arg == Rest(s, SkipBlanks(s, after))
        noAddr == x.from.kind = "none" /\ x.sep = 0
        cmd(op) == [op |-> op, from |-> x.from, sep |-> x.sep, to |-> x.to, arg |-> <<>>]
    IN  IF ch = 113 /\ noAddr /\ bare THEN Cmd("q")
        ELSE IF ch = 101 /\ noAddr /\ ~bare /\ Blank(At(s, after)) THEN [Cmd("e") EXCEPT !.arg = arg]
        ELSE IF ch = -1 /\ x.sep = 0 THEN cmd("null")
        ELSE IF ch = 112 /\ bare THEN cmd("p")
        ELSE IF ch = 110 /\ bare THEN cmd("n")
        ELSE IF ch = 100 /\ bare THEN cmd("d")
        ELSE IF ch = 61 /\ bare /\ x.sep = 0 THEN cmd("=")
        ELSE IF ch = 119 /\ (bare \/ Blank(At(s, after))) THEN [cmd("w") EXCEPT !.arg = IF bare THEN <<>> ELSE arg]
        ELSE IF ch = 97 /\ x.next = Len(s) /\ x.sep = 0 THEN cmd("a")
        ELSE IF ch = 105 /\ x.next = Len(s) /\ x.sep = 0 THEN cmd("i")
        ELSE IF ch = 99 /\ x.next = Len(s) THEN cmd("c")
        ELSE BadCmd

(* ----------------------------- address values ---------------------------- *)
None == -2000000000     \* no such line
LastLine(st) == Len(st.lines)

\* the first line after line cur that matches, going round
Find(st, re, cur) ==
    LET n == LastLine(st)
        line(i) == ((cur + i) % n) + 1
        found(i) == MatchesParsed(re, st.lines[line(i)])
    IN IF \E i \in 0..(n - 1) : found(i)
       THEN line(CHOOSE i \in 0..(n - 1) : found(i) /\ \A j \in 0..(i - 1) : ~found(j))
       ELSE None

\* every [ has its ] with something in between
RECURSIVE ReOk(_, _)
ReOk(re, i) ==
    IF i > Len(re) THEN TRUE
    ELSE IF re[i] # 91 THEN ReOk(re, i + 1)
    ELSE LET close == { j \in (i + 1)..Len(re) : re[j] = 93 } IN
         /\ close # {}
         /\ LET e == CHOOSE j \in close : \A k \in close : j <= k IN e > i + 1 /\ ReOk(re, e + 1)

Value(st, a, cur) ==
    LET base == CASE a.kind = "num" -> a.n
                  [] a.kind = "cur" -> cur
                  [] a.kind = "last" -> LastLine(st)
                  [] a.kind = "re" -> IF ~ReOk(a.re, 1) THEN None ELSE LET re == ParseRe(a.re) IN Find(st, re, cur)
                  [] OTHER -> None
    IN IF base = None THEN None ELSE base + a.off

DefaultFrom(st, op) == CASE op = "null" -> st.cur + 1 [] op = "=" -> LastLine(st) [] op = "w" -> 1 [] OTHER -> st.cur
DefaultTo(st, op) == IF op = "w" THEN LastLine(st) ELSE DefaultFrom(st, op)

\* the lines a command is for: << first, last >>
Addressed(st, c) ==
    LET given == c.from.kind # "none"
        from == IF given THEN Value(st, c.from, st.cur)
                ELSE IF c.sep = Comma THEN 1
                ELSE IF c.sep = Semi THEN st.cur
                ELSE DefaultFrom(st, c.op)
        cur2 == IF c.sep = Semi /\ given THEN from ELSE st.cur
        to == IF c.sep = 0 THEN (IF given THEN from ELSE DefaultTo(st, c.op))
              ELSE IF c.to.kind # "none" THEN (IF cur2 < 0 THEN None ELSE Value(st, c.to, cur2))
              ELSE IF given THEN from
              ELSE LastLine(st)
    IN << from, to >>

InRange(st, op, x) ==
    LET lo == IF op \in {"a", "i", "="} THEN 0 ELSE 1 IN
    \/ lo <= x[1] /\ x[1] <= x[2] /\ x[2] <= LastLine(st)
    \/ op = "w" /\ LastLine(st) = 0 /\ x = << 1, 0 >>

(* -------------------------------- effects -------------------------------- *)
\* lines s..e as they are in a file
Raw(st, s, e) == FlattenSeq([k \in 1..(e - s + 1) |->
                     IF s + k - 1 = LastLine(st) /\ ~st.nl THEN st.lines[s + k - 1] ELSE st.lines[s + k - 1] \o << NL >>])
Contents(st) == Raw(st, 1, LastLine(st))
Text(st) == FlattenSeq([k \in 1..LastLine(st) |-> st.lines[k] \o << NL >>])
Joined(ls) == FlattenSeq([k \in 1..Len(ls) |-> IF k = 1 THEN ls[k] ELSE << NL >> \o ls[k]])

\* lines s+1.. of the buffer (s of them kept, then text, then the lines from e+1 on)
Spliced(st, s, text, e) ==
    [st EXCEPT !.lines = SubSeq(st.lines, 1, s) \o text \o SubSeq(st.lines, e + 1, LastLine(st)),
               !.nl = st.nl \/ e = LastLine(st)]

LinesOf(data) ==
    LET at == SelectSeq([k \in 1..Len(data) |-> k], LAMBDA k : data[k] = NL)
        start(j) == IF j = 1 THEN 1 ELSE at[j - 1] + 1
        whole == [j \in 1..Len(at) |-> SubSeq(data, start(j), at[j] - 1)]
        end == IF at = <<>> THEN 0 ELSE at[Len(at)]
    IN IF end = Len(data) THEN whole ELSE Append(whole, Rest(data, end + 1))

Loaded(st, name) ==
    LET data == st.files[name]
        ls == LinesOf(data)
    IN [st EXCEPT !.lines = ls, !.nl = (data = <<>> \/ data[Len(data)] = NL), !.cur = Len(ls), !.name = name]

Out(st, text) == [st |-> st, kind |-> "out", out |-> text \o << NL >>]
Err(st) == [st |-> st, kind |-> "err", out |-> <<>>]

Effect(st, c, text, bad) ==
    CASE c.op = "q" -> [st |-> st, kind |-> "quit", out |-> <<>>]
      [] c.op = "bad" -> Err(st)
      [] c.op = "e" -> IF c.arg \in DOMAIN st.files /\ c.arg \notin bad THEN Out(Loaded(st, c.arg), <<>>) ELSE Err(st)
      [] OTHER ->
    LET x == Addressed(st, c)
        s == x[1]
        e == x[2]
        n == Len(text)
    IN  IF s = None \/ e = None \/ ~InRange(st, c.op, x) THEN Err(st)
        ELSE CASE c.op = "p" -> Out([st EXCEPT !.cur = e], Joined(SubSeq(st.lines, s, e)))
          [] c.op = "null" -> Out([st EXCEPT !.cur = s], st.lines[s])
          [] c.op = "n" -> Out([st EXCEPT !.cur = e],
                               FlattenSeq([k \in 1..(e - s + 1) |->
                                   Digits(s + k - 1) \o << 9 >> \o st.lines[s + k - 1] \o << NL >>]))
          [] c.op = "=" -> Out(st, Digits(s))
          [] c.op = "d" -> Out([Spliced(st, s - 1, <<>>, e) EXCEPT !.cur = IF e = LastLine(st) THEN s - 1 ELSE s], <<>>)
          [] c.op = "w" ->
               LET name == IF c.arg = <<>> THEN st.name ELSE c.arg IN
               IF name = <<>> \/ name[1] = 33 \/ name \in bad THEN Err(st)
               ELSE Out([st EXCEPT !.files = [f \in (DOMAIN st.files) \cup {name} |->
                                                 IF f = name THEN Raw(st, s, e) ELSE st.files[f]],
                                   !.name = IF st.name = <<>> THEN name ELSE st.name], <<>>)
          [] c.op = "a" -> IF n = 0 THEN Out([st EXCEPT !.cur = s], <<>>)        \* no text: only the line is made current
                           ELSE Out([Spliced(st, s, text, s) EXCEPT !.cur = s + n], <<>>)
          [] c.op = "i" -> LET t == IF s = 0 THEN 1 ELSE s IN
                           IF n = 0 THEN Out([st EXCEPT !.cur = s], <<>>)
                           ELSE Out([Spliced(st, t - 1, text, t - 1) EXCEPT !.cur = t - 1 + n], <<>>)
          [] c.op = "c" -> Out([Spliced(st, s - 1, text, e) EXCEPT
                               !.cur = IF n > 0 THEN s - 1 + n ELSE IF e = LastLine(st) THEN s - 1 ELSE s], <<>>)

\* line with the period that ends the text begun before line k, 0 if the input ends first
EndOfText(script, k) == LET ends(j) == script[j] = << Dot >> IN
                        IF \E j \in k..Len(script) : ends(j)
                        THEN CHOOSE j \in k..Len(script) : ends(j) /\ \A i \in k..(j - 1) : ~ends(i)
                        ELSE 0

Step(st, script, k, bad) ==
    LET line == script[k] IN
    IF ~StartsText(line)
    THEN LET r == Effect(st, Parse(line), <<>>, bad) IN r @@ [next |-> k + 1]
    ELSE LET e == EndOfText(script, k + 1) IN
         IF e = 0 THEN Err(st) @@ [next |-> Len(script) + 1]
         ELSE Effect(st, Parse(line), SubSeq(script, k + 1, e - 1), bad) @@ [next |-> e + 1]

Empty(files) == [lines |-> <<>>, nl |-> TRUE, cur |-> 0, name |-> <<>>, files |-> files]
=============================================================================
