---------------------------- MODULE PromptDesign ----------------------------
(* How a program comes to wait for input it does not need.  Items arrive one by one,
   until the input ends or for ever; the program reads what is there into a buffer,
   works on it, and puts answers out.  It needs Want items (0: all there are).
   Design "prompt": reads what is there, works on what it has, puts it out at once.
   Design "fill":   works only when the buffer is full or the input has ended.
   Design "late":   keeps answers back until there are Size of them or it ends.
   Design "ahead":  looks whether there is more before it ends.                *)
EXTENDS Integers, Sequences
CONSTANTS Max, Size, Design
VARIABLES want, arrived, closed, read, worked, out, ended
vars == << want, arrived, closed, read, worked, out, ended >>
Init == want \in 0..Max /\ arrived = 0 /\ closed = FALSE /\ read = 0 /\ worked = 0 /\ out = 0 /\ ended = FALSE
Arrive == ~closed /\ arrived < Max /\ arrived' = arrived + 1 /\ UNCHANGED << want, closed, read, worked, out, ended >>
Close == ~closed /\ closed' = TRUE /\ UNCHANGED << want, arrived, read, worked, out, ended >>
Done == want > 0 /\ worked = want
AtEnd == closed /\ read = arrived
Read == /\ ~ended /\ (Design = "ahead" \/ ~Done) /\ read < arrived /\ read - worked < Size
        /\ \E k \in (read + 1)..arrived : k - worked <= Size /\ read' = k
        /\ UNCHANGED << want, arrived, closed, worked, out, ended >>
Work == /\ ~ended /\ ~Done /\ worked < read
        /\ Design = "fill" => (read - worked = Size \/ AtEnd \/ worked % Size # 0)
        /\ worked' = worked + 1
        /\ UNCHANGED << want, arrived, closed, read, out, ended >>
Put == /\ ~ended /\ out < worked
       /\ Design = "late" => (worked - out >= Size \/ Done \/ (AtEnd /\ worked = read))
       /\ out' = out + 1
       /\ UNCHANGED << want, arrived, closed, read, worked, ended >>
End == /\ ~ended /\ out = worked
       /\ \/ Done /\ (Design = "ahead" => (read > worked \/ AtEnd))
          \/ AtEnd /\ worked = read
       /\ ended' = TRUE
       /\ UNCHANGED << want, arrived, closed, read, worked, out >>
Program == Read \/ Work \/ Put \/ End
Next == Arrive \/ Close \/ Program
Spec == Init /\ [][Next]_vars /\ WF_vars(Program)
Least(a, b) == IF a < b THEN a ELSE b
Owed == IF want > 0 THEN Least(want, arrived) ELSE arrived
Over == closed \/ (want > 0 /\ arrived >= want)
\* at rest it has done all it owes, and it comes to rest without more input
AtRest == ~ENABLED Program => out = Owed /\ ended = Over
Never == out <= Owed
Answers == \A k \in 1..Max : (Owed >= k) ~> (out >= k)
Ends == Over ~> ended
=============================================================================
