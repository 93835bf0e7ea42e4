----------------------------- MODULE LocaleEnvMC ----------------------------
(* All environments in which each variable is unset, empty or has a value of
   its own.                                                                    *)
EXTENDS LocaleEnv, Json
Names == << LANG >> \o Order \o << ALL >>
VARIABLES how, i
Init == how = <<>> /\ i = 0
Next == i < Len(Names) /\ \E s \in { 0, 1, 2 } : how' = Append(how, s) /\ i' = i + 1
Env == [n \in { Names[k] : k \in { j \in 1..i : how[j] > 0 } } |-> LET k == CHOOSE j \in 1..i : Names[j] = n IN IF how[k] = 1 THEN <<>> ELSE << 64 + k >>]
Full == i = Len(Names)
\* setting LC_ALL hides everything but LANG, a category's own variable only changes its line, LANG reaches exactly the categories without a value
Hides == Full /\ how[8] = 2 => \A k \in 2..7 : Shown(Env)[k][2] = Quoted(<< 72 >>)
Own == Full /\ how[8] # 2 => \A k \in 2..7 : Shown(Env)[k][2] = (IF how[k] = 2 THEN << 64 + k >> ELSE Quoted(IF how[1] = 2 THEN << 65 >> ELSE <<>>))
EmptyIsUnset == Full => Shown(Env) = Shown([n \in { x \in DOMAIN Env : Env[x] # <<>> } |-> Env[n]])
Emit == Full => PrintT(ToJson([how |-> how]))
=============================================================================
