-------------------------------- MODULE Diff --------------------------------
(* Comparing two lists of lines.
   - an edit script is a sequence of [k, v]: k one of 32 (kept), 43 (added),
     45 (removed), v a line (a sequence of bytes, or any value);
   - a normal diff is a sequence of output lines, judged by a machine that walks
     both files along with it (which is also how it would be applied).          *)
EXTENDS Utils
Kept == 32
Added == 43
Removed == 45
Pick(script, kinds) == LET s == SelectSeq(script, LAMBDA e : e.k \in kinds) IN [i \in 1..Len(s) |-> s[i].v]
OldOf(script) == Pick(script, { Kept, Removed })
NewOf(script) == Pick(script, { Kept, Added })
Rebuilds(script, old, new) == OldOf(script) = old /\ NewOf(script) = new

\* maximal runs without kept lines: no line is both removed and added in one
RunStep(st, e) ==
    IF e.k = Kept THEN [st EXCEPT !.r = {}, !.a = {}]
    ELSE LET r == IF e.k = Removed THEN st.r \cup { e.v } ELSE st.r
             a == IF e.k = Added THEN st.a \cup { e.v } ELSE st.a
         IN [ok |-> st.ok /\ r \cap a = {}, r |-> r, a |-> a]
NothingShared(script) == FoldLeft(RunStep, [ok |-> TRUE, r |-> {}, a |-> {}], script).ok
GoodScript(script, old, new) ==
    /\ \A i \in 1..Len(script) : script[i].k \in { Kept, Added, Removed }
    /\ Rebuilds(script, old, new)
    /\ NothingShared(script)
    /\ old = new => \A i \in 1..Len(script) : script[i].k = Kept

(* ---------------------------------------------------- lines and numbers *)
\* the lines of a text; a last newline ends a line and does not begin one
Cuts(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = NL)
Split(s) == LET at == << 0 >> \o Cuts(s) \o << Len(s) + 1 >>
            IN [i \in 1..(Len(at) - 1) |-> SubSeq(s, at[i] + 1, at[i + 1] - 1)]
FileLines(s) == IF s = <<>> THEN <<>> ELSE IF s[Len(s)] = NL THEN Split(SubSeq(s, 1, Len(s) - 1)) ELSE Split(s)
IsDigit(b) == b \in 48..57
NumberFrom(s) == FoldLeft(LAMBDA n, b : IF n > 100000000 THEN n ELSE n * 10 + (b - 48), 0, s)
IsNumber(s) == Len(s) > 0 /\ (\A i \in 1..Len(s) : IsDigit(s[i])) /\ (Len(s) > 1 => s[1] # 48)
\* n or m,n with m < n
RangeOf(s) ==
    LET c == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = 44)
    IN IF Len(c) = 0 /\ IsNumber(s) THEN << NumberFrom(s), NumberFrom(s) >>
       ELSE IF Len(c) = 1 /\ IsNumber(SubSeq(s, 1, c[1] - 1)) /\ IsNumber(SubSeq(s, c[1] + 1, Len(s)))
               /\ NumberFrom(SubSeq(s, 1, c[1] - 1)) < NumberFrom(SubSeq(s, c[1] + 1, Len(s)))
       THEN << NumberFrom(SubSeq(s, 1, c[1] - 1)), NumberFrom(SubSeq(s, c[1] + 1, Len(s))) >>
       ELSE <<>>
Header(s) ==
    LET l == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] \in { 97, 99, 100 })
    IN IF Len(l) # 1 THEN <<>>
       ELSE LET o == RangeOf(SubSeq(s, 1, l[1] - 1))
                n == RangeOf(SubSeq(s, l[1] + 1, Len(s)))
            IN IF o = <<>> \/ n = <<>> THEN <<>> ELSE << s[l[1]], o, n >>

(* --------------------------------------------- the machine reading a diff *)
\* o, n: the next lines of old and new; del, sep, add: what the hunk still owes
Start == [ok |-> TRUE, o |-> 1, n |-> 1, del |-> 0, sep |-> FALSE, add |-> 0]
Bad(st) == [st EXCEPT !.ok = FALSE]
SameRun(old, new, o, n, k) == /\ k >= 0 /\ o + k - 1 <= Len(old) /\ n + k - 1 <= Len(new)
                              /\ \A i \in 0..(k - 1) : old[o + i] = new[n + i]
Hunk(st, h, old, new) ==
    LET kind == h[1]
        a == h[2]
        b == h[3]
        k == IF kind = 97 THEN a[1] - st.o + 1 ELSE a[1] - st.o       \* kept lines before the hunk
        del == IF kind = 97 THEN 0 ELSE a[2] - a[1] + 1
        add == IF kind = 100 THEN 0 ELSE b[2] - b[1] + 1
        shape == IF kind = 97 THEN a[1] = a[2] ELSE IF kind = 100 THEN b[1] = b[2] ELSE TRUE
        numbers == IF kind = 100 THEN b[1] = st.n + k - 1 ELSE b[1] = st.n + k
    IN IF shape /\ numbers /\ SameRun(old, new, st.o, st.n, k)
          /\ st.o + k + del - 1 <= Len(old) /\ st.n + k + add - 1 <= Len(new)
       THEN [ok |-> TRUE, o |-> st.o + k, n |-> st.n + k, del |-> del, sep |-> (kind = 99), add |-> add]
       ELSE Bad(st)
DiffStep(st, line, old, new) ==
    IF ~st.ok THEN st
    ELSE IF st.del > 0 THEN IF line = << 60, 32 >> \o old[st.o] THEN [st EXCEPT !.o = @ + 1, !.del = @ - 1] ELSE Bad(st)
    ELSE IF st.sep THEN IF line = << 45, 45, 45 >> THEN [st EXCEPT !.sep = FALSE] ELSE Bad(st)
    ELSE IF st.add > 0 THEN IF line = << 62, 32 >> \o new[st.n] THEN [st EXCEPT !.n = @ + 1, !.add = @ - 1] ELSE Bad(st)
    ELSE LET h == Header(line) IN IF h = <<>> THEN Bad(st) ELSE Hunk(st, h, old, new)
GoodDiff(lines, old, new) ==
    LET end == FoldLeft(LAMBDA st, l : DiffStep(st, l, old, new), Start, lines)
    IN /\ end.ok /\ end.del = 0 /\ ~end.sep /\ end.add = 0
       /\ Len(old) - end.o = Len(new) - end.n
       /\ SameRun(old, new, end.o, end.n, Len(old) - end.o + 1)
       /\ (lines = <<>>) = (old = new)

(* --------------------------------- writing an edit script as a normal diff *)
Rng(m, n) == IF m = n THEN Digits(m) ELSE Digits(m) \o << 44 >> \o Digits(n)
\* hunks: maximal groups of removed-then-added lines
RECURSIVE Normal(_, _, _)
Normal(script, o, n) ==
    IF script = <<>> THEN <<>>
    ELSE IF script[1].k = Kept THEN Normal(Tail(script), o + 1, n + 1)
    ELSE LET RECURSIVE Count(_, _)
             Count(s, k) == IF s # <<>> /\ s[1].k = k THEN 1 + Count(Tail(s), k) ELSE 0
             d == Count(script, Removed)
             a == Count(SubSeq(script, d + 1, Len(script)), Added)
             head == IF d = 0 THEN Digits(o - 1) \o << 97 >> \o Rng(n, n + a - 1)
                     ELSE IF a = 0 THEN Rng(o, o + d - 1) \o << 100 >> \o Digits(n - 1)
                     ELSE Rng(o, o + d - 1) \o << 99 >> \o Rng(n, n + a - 1)
         IN << head >>
            \o [i \in 1..d |-> << 60, 32 >> \o script[i].v]
            \o (IF d > 0 /\ a > 0 THEN << << 45, 45, 45 >> >> ELSE <<>>)
            \o [i \in 1..a |-> << 62, 32 >> \o script[d + i].v]
            \o Normal(SubSeq(script, d + a + 1, Len(script)), o + d, n + a)
=============================================================================
