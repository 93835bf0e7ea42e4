------------------------------ MODULE LocaleEnv -----------------------------
(* What locale prints for an environment.  env is a function from the names of
   the variables that are set to their values (sequences of bytes).            *)
EXTENDS Utils
LANG == "LANG"
ALL == "LC_ALL"
Order == << "LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LC_MONETARY", "LC_NUMERIC", "LC_TIME" >>
Val(env, n) == IF n \in DOMAIN env THEN env[n] ELSE <<>>
Quoted(v) == << 34 >> \o v \o << 34 >>
Effective(env, n) == IF Val(env, ALL) # <<>> THEN Quoted(Val(env, ALL))
                     ELSE IF Val(env, n) # <<>> THEN Val(env, n)
                     ELSE Quoted(Val(env, LANG))
\* lines as [name, value]
Shown(env) == << << LANG, Quoted(Val(env, LANG)) >> >> \o [i \in 1..Len(Order) |-> << Order[i], Effective(env, Order[i]) >>]
              \o << << ALL, Val(env, ALL) >> >>
=============================================================================
