---------------------------- MODULE LocaleDefTrace --------------------------
(* A record: text, accepted, and the settings of the definition after reading
   (name, value; integers and groupings in decimal, with ';').                 *)
EXTENDS LocaleDef, Json, IOUtils
All0 == ndJsonDeserialize(IOEnv.VERIF_RECS)
Recs == All0
\* the keywords come with the check: a list of [cat, word, kind]
Table == ndJsonDeserialize(IOEnv.VERIF_KEYS)
TraceKeys == [cat \in { Table[i].cat : i \in 1..Len(Table) } |->
                LET mine == { Table[i] : i \in { j \in 1..Len(Table) : Table[j].cat = cat } }
                IN [w \in { t.word : t \in mine } |-> (CHOOSE t \in mine : t.word = w).kind]]
VARIABLES r, done
Rec == Recs[r]
JInit == r \in 1..Len(Recs) /\ done = FALSE
JNext == ~done /\ done' = TRUE /\ UNCHANGED r
Word_MON == << 76, 67, 95, 77, 79, 78, 69, 84, 65, 82, 89 >>
\* the settings in the text: keyword lines of the monetary category
Settings(text) ==
    LET p == Pre(text)
        ls == Logical(p)
        step(st, l) == IF st.at = <<>> THEN [st EXCEPT !.at = TrimR(l)]
                       ELSE IF FirstWord(l)[1] = Word_END THEN [st EXCEPT !.at = <<>>]
                       ELSE IF st.at = Word_MON THEN [st EXCEPT !.got = Append(@, FirstWord(l))]
                       ELSE st
    IN FoldLeft(step, [at |-> <<>>, got |-> <<>>], ls).got
\* decimal form of an integer without superfluous zeros
Plain(s) == LET neg == s[1] = 45
                d == IF neg THEN Tail(s) ELSE s
                nz == SelectSeq([i \in 1..Len(d) |-> i], LAMBDA i : d[i] # 48)
                m == IF nz = <<>> THEN << 48 >> ELSE SubSeq(d, nz[1], Len(d))
            IN IF neg /\ m # << 48 >> THEN << 45 >> \o m ELSE m
Value(kind, s) == IF kind = "string" THEN SubSeq(s, 2, Len(s) - 1)
                  ELSE LET p == SplitAt(s, Semi) IN FlattenSeq([i \in 1..Len(p) |-> (IF i = 1 THEN <<>> ELSE << Semi >>) \o Plain(p[i])])
Found(w) == { i \in 1..Len(Rec.settings) : Rec.settings[i].n = w }
Kept == LET set == Settings(Rec.text)
            esc == Pre(Rec.text).esc
            last(w) == LET at == { i \in 1..Len(set) : set[i][1] = w } IN CHOOSE i \in at : \A j \in at : j <= i
        IN \A w \in { set[i][1] : i \in 1..Len(set) } :
              \A i \in Found(w) : \/ \E j \in 1..Len(set[last(w)][2]) : set[last(w)][2][j] = esc       \* escape sequences: the form kept is not specified
                                  \/ Rec.settings[i].v = Value(Keys[Word_MON][w], set[last(w)][2])
\* and none that are not in the text (a number that is not set is 0 or -1)
NoOthers == LET in == { Settings(Rec.text)[i][1] : i \in 1..Len(Settings(Rec.text)) }
            IN \A i \in 1..Len(Rec.settings) : Rec.settings[i].n \notin in => Rec.settings[i].v \in { <<>>, << 48 >>, << 45, 49 >> }
Ok == done => /\ "fatal" \notin DOMAIN Rec
              /\ LET w == WellFormed(Rec.text) IN Rec.accepted = w /\ (w => Kept /\ NoOthers)
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> [wellformed |-> WellFormed(Rec.text)]]))
=============================================================================
