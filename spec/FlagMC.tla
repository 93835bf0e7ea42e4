------------------------------- MODULE FlagMC -------------------------------
(* A command line is built from what its user means: options with values, each
   written in every way the guidelines allow (own argument or bundled, value
   attached or separate), then possibly '--', then operands.  Parsing gives back
   what was meant, for every way of writing it; and for a mistake added at the
   end, a fault that leaves the options before it as they were.                *)
EXTENDS Flag, Json
CONSTANTS MaxOpts, MaxOps
A == 97
B == 98
S == 115
N == 110
Kinds == (A :> "bool") @@ (B :> "bool") @@ (S :> "string") @@ (N :> "int")
StrVals == { << 120 >>, << Minus, A >>, << Minus, Minus >>, << Minus >>, <<>> }
IntVals == { << << 55 >>, << 55 >> >>, << << 48, 120, 49, 48 >>, << 49, 54 >> >>, << << Minus, 48, 49, 48 >>, << Minus, 56 >> >> }   \* written, meant
Operands == { << 120 >>, << Minus >>, << Minus, A >>, <<>>, << Minus, Minus >> }
VARIABLES args, meant, n, phase, bundle, ops
vars == << args, meant, n, phase, bundle, ops >>
Init == args = <<>> /\ meant = <<>> /\ n = 0 /\ phase = "options" /\ bundle = FALSE /\ ops = <<>>
\* append letters (and an attached value) to the open bundle or as a new argument
Put(cs) == IF bundle THEN { [args EXCEPT ![Len(args)] = @ \o cs], Append(args, << Minus >> \o cs) } ELSE { Append(args, << Minus >> \o cs) }
More == phase = "options" /\ n < MaxOpts /\ n' = n + 1
Bool == /\ More
        /\ \E l \in { A, B } : args' \in Put(<< l >>) /\ meant' = Set(meant, l, <<>>)
        /\ bundle' = TRUE /\ UNCHANGED << phase, ops >>
Attached == /\ More
            /\ \/ \E v \in StrVals \ { <<>> } : args' \in Put(<< S >> \o v) /\ meant' = Set(meant, S, v)
               \/ \E v \in IntVals : args' \in Put(<< N >> \o v[1]) /\ meant' = Set(meant, N, v[2])
            /\ bundle' = FALSE /\ UNCHANGED << phase, ops >>
Separate == /\ More
            /\ \/ \E v \in StrVals : args' \in { Append(p, v) : p \in Put(<< S >>) } /\ meant' = Set(meant, S, v)
               \/ \E v \in IntVals : args' \in { Append(p, v[1]) : p \in Put(<< N >>) } /\ meant' = Set(meant, N, v[2])
            /\ bundle' = FALSE /\ UNCHANGED << phase, ops >>
EndOfOptions == phase = "options" /\ phase' = "after" /\ args' = Append(args, << Minus, Minus >>) /\ bundle' = FALSE /\ UNCHANGED << meant, n, ops >>
Operand == /\ phase \in { "options", "after", "operands" } /\ Len(ops) < MaxOps
           /\ \E o \in Operands : /\ (phase = "options" => o \in { << 120 >>, << Minus >>, <<>> })
                                  /\ args' = Append(args, o) /\ ops' = Append(ops, o)
           /\ phase' = (IF phase = "options" THEN "operands" ELSE phase)
           /\ bundle' = FALSE /\ UNCHANGED << meant, n >>
Mistake == /\ phase = "options"
           /\ \/ args' \in Put(<< 122 >>)                             \* no such option
              \/ args' \in Put(<< S >>)                               \* no value
              \/ args' \in Put(<< N >>)
              \/ args' \in Put(<< N, 49, 120 >>)                      \* no integer
              \/ \E x \in { << 48, 56 >>, <<>>, << Minus, A >>, << 49, 46, 48 >> } : args' \in { Append(p, x) : p \in Put(<< N >>) }
              \/ args' \in Put(<< Minus, A >>)                        \* a long option
           /\ phase' = "fault" /\ UNCHANGED << meant, n, bundle, ops >>
Next == Bool \/ Attached \/ Separate \/ EndOfOptions \/ Operand \/ Mistake
Got == Parse(Kinds, args)
Same(v, w) == DOMAIN v = DOMAIN w /\ \A l \in DOMAIN v : v[l] = w[l]
Understood == IF phase = "fault" THEN Got.fault /\ Got.ops = <<>> /\ Same(Got.vals, meant)
              ELSE ~Got.fault /\ Got.ops = ops /\ Same(Got.vals, meant)
Emit == PrintT(ToJson([args |-> args]))
=============================================================================
