-------------------------------- MODULE Tsort -------------------------------
(* Ordering items by given pairs.  adds is a sequence of chains (sequences of
   items, each to come before the next one; a chain of one item only says that
   the item exists).                                                          *)
EXTENDS Utils, FiniteSets
Items(adds) == UNION { { adds[i][j] : j \in 1..Len(adds[i]) } : i \in 1..Len(adds) }
Pairs(adds) == UNION { { << adds[i][j], adds[i][j + 1] >> : j \in 1..(Len(adds[i]) - 1) } : i \in 1..Len(adds) }
\* items without a predecessor can come first; what is left when there are none is on or behind a cycle
RECURSIVE Strip(_, _)
Strip(items, pairs) ==
    LET behind == { p[2] : p \in pairs }
    IN IF items \subseteq behind THEN items
       ELSE Strip(items \cap behind, { p \in pairs : p[1] \in behind })
Impossible(adds) == Strip(Items(adds), Pairs(adds)) # {}
PosOf(order) == [w \in { order[i] : i \in 1..Len(order) } |-> CHOOSE i \in 1..Len(order) : order[i] = w]
Respects(order, pairs) == LET at == PosOf(order) IN \A p \in pairs : at[p[1]] < at[p[2]]
ValidOrder(order, adds) ==
    /\ { order[i] : i \in 1..Len(order) } = Items(adds)
    /\ Len(order) = Cardinality(Items(adds))
    /\ Respects(order, Pairs(adds))

(* ---------------------------------------------------------- the program *)
IsBlank(b) == b \in { 9, 10, 32 }
Words(s) == LET cut == SelectSeq([i \in 1..(Len(s) + 1) |-> i], LAMBDA i : i > Len(s) \/ IsBlank(s[i]))
                part(i) == SubSeq(s, (IF i = 1 THEN 0 ELSE cut[i - 1]) + 1, cut[i] - 1)
            IN SelectSeq([i \in 1..Len(cut) |-> part(i)], LAMBDA w : w # <<>>)
\* two equal words say that the item exists
Adds(words) == [i \in 1..(Len(words) \div 2) |->
                  IF words[2 * i - 1] = words[2 * i] THEN << words[2 * i] >> ELSE << words[2 * i - 1], words[2 * i] >>]
=============================================================================
