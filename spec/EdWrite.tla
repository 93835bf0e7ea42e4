------------------------------ MODULE EdWrite -------------------------------
(* The operating system calls behind w.  The new content goes out in pieces;
   the process can be killed before any call and any call can fail, a write
   also after a part of its data.
   Design "rename": temporary file of a name not in use, given the permissions
   of the old file, renamed over it.  Design "inplace": truncate and write.
   Design "swp": like rename but with a fixed temporary name, whoever's file
   that is.  Design "nomode": like rename without the permissions.            *)
EXTENDS Integers, Sequences
CONSTANTS Pieces, Design, SwpExists

Old == << -1 >>
New == [i \in 1..Pieces |-> i]
VARIABLES target, tmode, tmp, tmpmode, user, pc, n, answer, alive
vars == << target, tmode, tmp, tmpmode, user, pc, n, answer, alive >>
\* tmp: content of the temporary file, <<-2>> if there is none
\* user: a file of the user's that has the first temporary name
None == << -2 >>

Init == /\ target = Old /\ tmode = "mine" /\ tmp = None /\ tmpmode = "default"
        /\ user = IF SwpExists THEN << -3 >> ELSE None
        /\ pc = "open" /\ n = 0 /\ answer = "none" /\ alive = TRUE

Fail == pc' = "cleanup"
Clobbers == Design = "swp" /\ user # None

Open == /\ pc = "open"
        /\ \/ /\ pc' = "write"
              /\ IF Design = "inplace" THEN target' = <<>> /\ UNCHANGED << tmp, user >>
                 ELSE /\ tmp' = <<>> /\ UNCHANGED target
                      /\ user' = IF Clobbers THEN <<>> ELSE user
           \/ pc' = "failed" /\ UNCHANGED << target, tmp, user >>
        /\ UNCHANGED << tmode, tmpmode, n, answer, alive >>
Write == /\ pc = "write" /\ n < Pieces
         /\ \/ /\ n' = n + 1 /\ UNCHANGED pc
               /\ IF Design = "inplace" THEN target' = Append(target, n + 1) /\ UNCHANGED tmp
                  ELSE tmp' = Append(tmp, n + 1) /\ UNCHANGED target
            \/ Fail /\ UNCHANGED << n, target, tmp >>
         /\ UNCHANGED << tmode, tmpmode, user, answer, alive >>
Close == /\ pc = "write" /\ n = Pieces
         /\ \/ pc' = (IF Design = "inplace" THEN "done" ELSE IF Design = "nomode" THEN "rename" ELSE "chmod") \/ Fail
         /\ UNCHANGED << target, tmode, tmp, tmpmode, user, n, answer, alive >>
Chmod == /\ pc = "chmod"
         /\ \/ pc' = "rename" /\ tmpmode' = "mine"
            \/ Fail /\ UNCHANGED tmpmode
         /\ UNCHANGED << target, tmode, tmp, user, n, answer, alive >>
Rename == /\ pc = "rename"
          /\ \/ pc' = "done" /\ target' = tmp /\ tmode' = tmpmode /\ tmp' = None
             \/ Fail /\ UNCHANGED << target, tmode, tmp >>
          /\ UNCHANGED << tmpmode, user, n, answer, alive >>
Cleanup == /\ pc = "cleanup"
           /\ pc' = "failed"
           /\ tmp' \in {None, tmp}            \* removing it may fail too
           /\ UNCHANGED << target, tmode, tmpmode, user, n, answer, alive >>
Answer == /\ pc \in {"done", "failed"} /\ answer = "none"
          /\ answer' = IF pc = "done" THEN "ok" ELSE "?"
          /\ UNCHANGED << target, tmode, tmp, tmpmode, user, pc, n, alive >>
Kill == alive' = FALSE /\ UNCHANGED << target, tmode, tmp, tmpmode, user, pc, n, answer >>

Next == alive /\ (Open \/ Write \/ Close \/ Chmod \/ Rename \/ Cleanup \/ Answer \/ Kill)

OldOrNew == target \in {Old, New}
AnswerTrue == answer = "ok" => target = New /\ tmp = None
FailureTrue == answer = "?" => target = Old
ModeKept == tmode = "mine"
OthersKept == SwpExists => user = << -3 >>
=============================================================================
