---------------------------- MODULE LocaleEnvTrace --------------------------
EXTENDS LocaleEnv, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, done
Rec == Recs[r]
JInit == r \in 1..Len(Recs) /\ done = FALSE
JNext == ~done /\ done' = TRUE /\ UNCHANGED r
Env == [n \in { Rec.env[i].n : i \in 1..Len(Rec.env) } |-> (CHOOSE e \in { Rec.env[i] : i \in 1..Len(Rec.env) } : e.n = n).v]
Name == [n \in { "LANG", "LC_ALL", "LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LC_MONETARY", "LC_NUMERIC", "LC_TIME" } |->
           LET codes == [LANG |-> << 76, 65, 78, 71 >>, LC_ALL |-> << 76, 67, 95, 65, 76, 76 >>, LC_COLLATE |-> << 76, 67, 95, 67, 79, 76, 76, 65, 84, 69 >>,
                         LC_CTYPE |-> << 76, 67, 95, 67, 84, 89, 80, 69 >>, LC_MESSAGES |-> << 76, 67, 95, 77, 69, 83, 83, 65, 71, 69, 83 >>,
                         LC_MONETARY |-> << 76, 67, 95, 77, 79, 78, 69, 84, 65, 82, 89 >>, LC_NUMERIC |-> << 76, 67, 95, 78, 85, 77, 69, 82, 73, 67 >>,
                         LC_TIME |-> << 76, 67, 95, 84, 73, 77, 69 >>] IN codes[n]]
Text == LET s == Shown(Env) IN FlattenSeq([i \in 1..Len(s) |-> Name[s[i][1]] \o << 61 >> \o s[i][2] \o << NL >>])
Ok == done => "fatal" \notin DOMAIN Rec /\ Rec.out = Text /\ Rec.rc = 0
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> Text]))
=============================================================================
