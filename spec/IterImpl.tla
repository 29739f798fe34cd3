------------------------------ MODULE IterImpl ------------------------------
(***************************************************************************)
(* Implementation-shaped model of the by-value iterator: two cursors over  *)
(* an array whose slots are never dropped implicitly, with one step per    *)
(* destructor call and a destructor that may panic once.  Checked:         *)
(*   - no slot is destroyed or handed out unless the iterator owns it      *)
(*   - nothing is left behind unless a destructor panicked                 *)
(*   - refinement of the abstract double-ended queue (module Deque)        *)
(* Variant "fixed" is the code of this tree; "base" is the code as first   *)
(* found (no emptiness test at the back; nth destroys before advancing and *)
(* without bound), kept so that the model is shown to reject it.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, Variant, MayPanic

VARIABLES n, next, back,   \* cursors, as in the code
          slot,            \* 0..n-1 -> "own" | "out" | "dead"
          pc, arg,         \* idle | nth | dropping | dead ; remaining skips
          cursor,          \* base-variant nth: slot being destroyed
          panicked, fault, \* fault: an illegal slot access happened
          hist             \* labels handed out, in order (ghost)
vars == <<n, next, back, slot, pc, arg, cursor, panicked, fault, hist>>

Slots == 0..(n - 1)
Owned(i) == i \in Slots /\ slot[i] = "own"

Init == /\ n \in 0..MaxN
        /\ next = 0 /\ back = n
        /\ slot = [i \in 0..(n - 1) |-> "own"]
        /\ pc = "idle" /\ arg = 0 /\ cursor = 0
        /\ panicked = FALSE /\ fault = FALSE /\ hist = <<>>

Out(i) == /\ fault' = (fault \/ ~Owned(i))
          /\ slot' = IF i \in Slots THEN [slot EXCEPT ![i] = "out"] ELSE slot
          /\ hist' = Append(hist, i)
Kill(i) == /\ fault' = (fault \/ ~Owned(i))
           /\ slot' = IF i \in Slots THEN [slot EXCEPT ![i] = "dead"] ELSE slot

NextCall ==
  /\ pc = "idle"
  /\ IF next < back THEN Out(next) /\ next' = next + 1
                    ELSE UNCHANGED <<next, slot, fault, hist>>
  /\ UNCHANGED <<n, back, pc, arg, cursor, panicked>>

BackGuard == IF Variant = "base" THEN back > 0 ELSE next < back
NextBackCall ==
  /\ pc = "idle"
  /\ IF BackGuard THEN Out(back - 1) /\ back' = back - 1
                  ELSE UNCHANGED <<back, slot, fault, hist>>
  /\ UNCHANGED <<n, next, pc, arg, cursor, panicked>>

NthCall(k) ==
  /\ pc = "idle" /\ pc' = "nth" /\ arg' = k /\ cursor' = next
  /\ UNCHANGED <<n, next, back, slot, panicked, fault, hist>>

\* one destructor call inside nth; it may panic, after which the iterator itself is dropped
NthStep ==
  /\ pc = "nth" /\ arg > 0
  /\ IF Variant = "base"
     THEN /\ Kill(cursor)
          /\ \/ cursor' = cursor + 1 /\ arg' = arg - 1 /\ UNCHANGED <<pc, panicked, next>>
             \/ MayPanic /\ ~panicked /\ panicked' = TRUE /\ pc' = "dropping" /\ UNCHANGED <<cursor, arg, next>>
     ELSE IF next < back
          THEN /\ Kill(next) /\ next' = next + 1
               /\ \/ arg' = arg - 1 /\ UNCHANGED <<pc, panicked, cursor>>
                  \/ MayPanic /\ ~panicked /\ panicked' = TRUE /\ pc' = "dropping" /\ UNCHANGED <<cursor, arg>>
          ELSE pc' = "idle" /\ arg' = 0 /\ UNCHANGED <<next, slot, fault, cursor, panicked>>
  /\ UNCHANGED <<n, back, hist>>

NthEnd ==
  /\ pc = "nth" /\ arg = 0
  /\ pc' = "idle"
  /\ LET nx == IF Variant = "base" THEN cursor ELSE next IN
       IF nx < back THEN Out(nx) /\ next' = nx + 1
                    ELSE next' = nx /\ UNCHANGED <<slot, fault, hist>>
  /\ UNCHANGED <<n, back, arg, cursor, panicked>>

Drop == pc = "idle" /\ pc' = "dropping" /\ UNCHANGED <<n, next, back, slot, arg, cursor, panicked, fault, hist>>

\* Drop destroys next..back; a panic leaves the rest behind
DropStep ==
  /\ pc = "dropping" /\ next < back
  /\ Kill(next) /\ next' = next + 1
  /\ \/ UNCHANGED <<pc, panicked>>
     \/ MayPanic /\ ~panicked /\ panicked' = TRUE /\ pc' = "dead"
  /\ UNCHANGED <<n, back, arg, cursor, hist>>
DropEnd == pc = "dropping" /\ next >= back /\ pc' = "dead"
           /\ UNCHANGED <<n, next, back, slot, arg, cursor, panicked, fault, hist>>
Done == pc = "dead" /\ UNCHANGED vars

Next == NextCall \/ NextBackCall \/ (\E k \in 0..(MaxN + 1) : NthCall(k)) \/ NthStep \/ NthEnd
        \/ Drop \/ DropStep \/ DropEnd \/ Done
Spec == Init /\ [][Next]_vars

(* never touch what is not owned: no double drop, no double hand-out, no out-of-range access *)
NoFault == ~fault
(* exactly once: when the iterator is gone, every slot was handed out or destroyed *)
AllAccounted == (pc = "dead" /\ ~panicked) => \A i \in Slots : slot[i] # "own"
Exact == pc = "idle" => (\A i \in Slots : slot[i] = "own" <=> (next <= i /\ i < back))
CursorsInRange == pc = "idle" => (0 <= next /\ next <= back /\ back <= n)

(* refinement: the iterator is the queue of the labels between the cursors *)
RestMap == [k \in 1..(IF back > next THEN back - next ELSE 0) |-> <<next + k - 1>>]
D == INSTANCE Deque WITH rest <- RestMap, held <- hist
Given == SubSeq(hist', Len(hist) + 1, Len(hist'))
GivenItems == [k \in 1..Len(Given) |-> <<Given[k]>>]
Refines ==
  [][/\ (pc = "idle" /\ pc' = "idle") =>
           \/ D!Next_(TRUE, GivenItems, <<>>)
           \/ D!NextBack(TRUE, GivenItems, <<>>)
     /\ (pc = "nth" /\ pc' = "idle") => (Len(Given) = 1 => D!Next_(TRUE, GivenItems, <<>>))]_vars
=============================================================================
