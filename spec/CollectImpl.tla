----------------------------- MODULE CollectImpl -----------------------------
(***************************************************************************)
(* The algorithm that collects an iterator into a vector of fixed length   *)
(* (Vector::from_iter), one source call / destructor call per step, where  *)
(* the source and every destructor may panic.                              *)
(*   Guarded : the half-filled array is never dropped as a whole           *)
(*   Checked : a surplus is detected (debug assertions)                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxN, MaxK, Guarded

VARIABLES n, k, checked,      \* length, items the source has, debug assertions on?
          pc, i, j,           \* control, filled slots, cleanup cursor
          slot,               \* slot -> item (0: uninitialised)
          given,              \* items the source has handed out
          drops,              \* item -> times destroyed
          junk,               \* uninitialised memory was dropped
          faulted             \* a user callback panicked
vars == <<n, k, checked, pc, i, j, slot, given, drops, junk, faulted>>

Init == /\ n \in 0..MaxN /\ k \in 0..MaxK /\ checked \in BOOLEAN
        /\ pc = "fill" /\ i = 0 /\ j = 1
        /\ slot = [s \in 1..n |-> 0] /\ given = 0
        /\ drops = [x \in 1..k |-> 0]
        /\ junk = FALSE /\ faulted = FALSE

Fill == /\ pc = "fill" /\ i < n /\ given < k
        /\ given' = given + 1 /\ i' = i + 1
        /\ slot' = [slot EXCEPT ![i + 1] = given + 1]
        /\ UNCHANGED <<n, k, checked, pc, j, drops, junk, faulted>>
SourcePanics == /\ pc = "fill" /\ i < n
                /\ pc' = "panicked" /\ faulted' = TRUE    \* what was collected leaks
                /\ UNCHANGED <<n, k, checked, i, j, slot, given, drops, junk>>
Short == /\ pc = "fill" /\ i < n /\ given = k
         /\ pc' = "cleanup"
         /\ UNCHANGED <<n, k, checked, i, j, slot, given, drops, junk, faulted>>
Cleanup == /\ pc = "cleanup" /\ j <= i
           /\ drops' = [drops EXCEPT ![slot[j]] = @ + 1] /\ j' = j + 1
           /\ \/ UNCHANGED <<pc, faulted>>
              \/ pc' = "unwind" /\ faulted' = TRUE          \* this destructor panics
           /\ UNCHANGED <<n, k, checked, i, slot, given, junk>>
CleanupDone == /\ pc = "cleanup" /\ j > i /\ pc' = "panicked"
               /\ UNCHANGED <<n, k, checked, i, j, slot, given, drops, junk, faulted>>
Unwind == /\ pc = "unwind" /\ pc' = "panicked"
          /\ IF Guarded THEN UNCHANGED <<drops, junk>>
             ELSE /\ drops' = [x \in 1..k |-> drops[x] + (IF \E s \in 1..n : slot[s] = x THEN 1 ELSE 0)]
                  /\ junk' = (i < n)
          /\ UNCHANGED <<n, k, checked, i, j, slot, given, faulted>>
Full == /\ pc = "fill" /\ i = n /\ ~checked
        /\ pc' = "returned"
        /\ UNCHANGED <<n, k, checked, i, j, slot, given, drops, junk, faulted>>
(* count what is left, destroying it *)
Surplus == /\ pc = "fill" /\ i = n /\ checked /\ given < k
           /\ given' = given + 1 /\ drops' = [drops EXCEPT ![given + 1] = @ + 1]
           /\ \/ UNCHANGED <<pc, faulted>>
              \/ pc' = "panicked" /\ faulted' = TRUE
           /\ UNCHANGED <<n, k, checked, i, j, slot, junk>>
Verdict == /\ pc = "fill" /\ i = n /\ checked /\ given = k
           /\ pc' = (IF k = n THEN "returned" ELSE "panicked")
           /\ UNCHANGED <<n, k, checked, i, j, slot, given, drops, junk, faulted>>
Over == pc \in {"returned", "panicked"} /\ UNCHANGED vars

Next == Fill \/ SourcePanics \/ Short \/ Cleanup \/ CleanupDone \/ Unwind \/ Full \/ Surplus \/ Verdict \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OnceAtMost == \A x \in 1..k : drops[x] <= 1
NoJunk == ~junk
(* the outcome RowCol!Collect prescribes *)
Outcome == /\ pc = "returned" => k >= n /\ (checked => k = n) /\ \A s \in 1..n : slot[s] = s /\ drops[s] = 0
           /\ pc = "panicked" /\ ~faulted => k < n \/ (checked /\ k > n)
           /\ pc = "panicked" /\ ~faulted /\ k < n => \A x \in 1..k : drops[x] = 1
Ends == <>(pc \in {"returned", "panicked"})
=============================================================================
