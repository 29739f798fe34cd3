----------------------------- MODULE BuildTrace -----------------------------
(***************************************************************************)
(* One and the same history, recorded from several builds of the crate:    *)
(* event by event, all builds must have observed the same.  What counts:   *)
(* outcome, results, ownership.  What does not: how many user callbacks an *)
(* operation made (the last field of an event of the register machine),    *)
(* and elements made on the way to a panic (an                             *)
(* index out of range is found by arithmetic in one build and by a bounds  *)
(* check in another).  Histories that violate a precondition checked by    *)
(* debug assertions only (a source yielding too many elements) are not     *)
(* compared.                                                               *)
(* Floating point results are compared bit for bit.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils

VARIABLES tid, l
vars == <<tid, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)     \* ev[l]: the l-th event of every build
Init == tid \in 1..Len(Trace) /\ l = 1
Ev == Trace[tid].ev[l]

DebugOnly == {"vcolx"}
Excused == Trace[tid].module = "RowColTrace" /\ \E k \in 1..Len(Trace[tid].ev) : Trace[tid].ev[k][1] # <<>> /\ Trace[tid].ev[k][1][1] \in DebugOnly
(* the last event of a history counts the elements still alive and all elements ever made *)
Seen(e) == IF Trace[tid].module # "RowColTrace" THEN e
           ELSE IF e[1] = "end" THEN SubSeq(e, 1, 11) \o <<e[12][1]>> \o SubSeq(e, 13, Len(e) - 1) ELSE SubSeq(e, 1, Len(e) - 1)
Agree(es) == Excused \/ \A i \in 2..Len(es) : es[i] # <<>> /\ Seen(es[i]) = Seen(es[1])

Step == l <= Len(Trace[tid].ev) /\ Agree(Ev) /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(Trace[tid].ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
