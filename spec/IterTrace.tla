----------------------------- MODULE IterTrace -----------------------------
(***************************************************************************)
(* Judges recorded histories of rowcol's iterators against module Deque.   *)
(* One line of the trace file is one history:                              *)
(*   k: kind (own chunks rows cols rowsref colsref colin)                  *)
(*   t: element type (tok: has a destructor, cp: Copy, zst: zero-sized)    *)
(*   d: dimensions;  ev: the events                                        *)
(*   event: <<op, a1, a2, outcome, items, nums, destroyed labels, live>>   *)
(* The initial states are the histories; a history the specification does  *)
(* not allow ends in a deadlock before its last event.                     *)
(***************************************************************************)
EXTENDS Deque, Json, TLC, IOUtils

VARIABLES tid, l, blown      \* blown: a user callback panicked inside the iterator
vars == <<tid, l, rest, held, blown>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Kind(t) == Trace[t].k
ElT(t)  == Trace[t].t
Dim(t, i) == Trace[t].d[i]

(* label of element i of a vector, and of element (i,j) of a matrix (0-based) *)
VLab(t, i) == IF ElT(t) = "zst" THEN -1 ELSE i + 1
MLab(i, j) == i * 100 + j + 1

Owning(t) == Kind(t) \in {"own", "chunks"}
(* destruction is observable only for element types that have a destructor *)
Destroys(t) == Owning(t) /\ ElT(t) # "cp"

InitialItems(t) ==
  LET a == Dim(t, 1)  b == Dim(t, 2)  c == Dim(t, 3) IN
  CASE Kind(t) = "own"    -> [i \in 1..a |-> <<VLab(t, i - 1)>>]
    [] Kind(t) = "chunks" -> [i \in 1..(a \div b) |-> [j \in 1..b |-> VLab(t, (i - 1) * b + j - 1)]]
    [] Kind(t) \in {"rows", "rowsref"} -> [i \in 1..a |-> [j \in 1..b |-> MLab(i - 1, j - 1)]]
    [] Kind(t) \in {"cols", "colsref"} -> [j \in 1..b |-> [i \in 1..a |-> MLab(i - 1, j - 1)]]
    [] Kind(t) = "colin"  -> [i \in 1..a |-> <<MLab(i - 1, c)>>]

MatrixRows(t) == [i \in 1..Dim(t, 1) |-> [j \in 1..Dim(t, 2) |-> MLab(i - 1, j - 1)]]

Init == /\ tid \in 1..Len(Trace)
        /\ l = 1
        /\ rest = InitialItems(tid)
        /\ held = <<>>
        /\ blown = FALSE

Ev == Trace[tid].ev[l]

Act(ow, op, a, b, o, ns, ds) ==
  CASE op = "n" -> Next_(ow, o, ds) /\ ns = <<>>
    [] op = "b" -> NextBack(ow, o, ds) /\ ns = <<>>
    [] op = "h" -> Nth(ow, a, o, ds) /\ ns = <<>>
    [] op = "H" -> NthBack(ow, a, o, ds) /\ ns = <<>>
    [] op = "l" -> LenQ(ns, ds) /\ o = <<>>
    [] op = "z" -> HintQ(ns, ds) /\ o = <<>>
    [] op = "k" -> Take(ow, a, o, ds) /\ ns = <<>>
    [] op = "p" -> TryFold(ow, a, o, ns, ds)
    [] op = "q" -> TryRFold(ow, a, o, ns, ds)
    [] op = "i" -> Position(ow, a, o, ns, ds)
    [] op = "j" -> RPosition(ow, a, o, ns, ds)
    [] op = "I" -> Find(ow, a, o, ns, ds)
    [] op = "J" -> RFind(ow, a, o, ns, ds)
    [] op \in {"A", "L", "m", "v"} -> Search(ow, a, o, ns, ds)
    [] op \in {"M", "U"} -> ChooseLast(ow, o, ns, ds)
    [] op = "N" -> ChooseFirst(ow, o, ns, ds)
    [] op = "P" -> Partition(ow, o, ds)
    [] op = "a" -> Advance(ow, a, b, o, ns, ds)
    [] op = "c" -> Count(ow, o, ns, ds)
    [] op = "t" -> Last(ow, o, ds)
    [] op \in {"f", "g", "o"} -> Forward(ow, o, ds)
    [] op \in {"F", "r"} -> Backward(ow, o, ds)
    [] op = "s" -> Skip(ow, a, o, ds)
    [] op = "y" -> StepBy(ow, a, o, ds)
    [] op = "d" -> Abandon(ow, o, ds)

(* elements alive after the call: what the iterator still owns and what was handed out *)
LiveAfter(t) ==
  IF ElT(t) = "cp" THEN 0
  ELSE IF Owning(t) THEN Len(Flat(rest')) + Len(held')
  ELSE IF Kind(t) \in {"rows", "cols"} THEN Dim(t, 1) * Dim(t, 2) + Len(held')
  ELSE Dim(t, 1) * Dim(t, 2)

Call ==
  /\ Ev[1] \notin {"e", "E"}
  /\ Ev[4] = "ok"
  /\ Act(Destroys(tid), Ev[1], Ev[2], Ev[3], Ev[5], Ev[6], Ev[7])
  /\ Ev[8] = LiveAfter(tid)
  /\ UNCHANGED blown

(* a clone, a destructor or the caller's closure panicked inside the call: what was handed out before is still alive *)
Fault ==
  /\ Ev[1] \notin {"e", "E"}
  /\ Ev[4] = "blown"
  /\ ElT(tid) = "tok"
  /\ Ev[8] >= (IF Kind(tid) \in {"own", "chunks", "rows", "cols"} THEN Len(held) ELSE 0)
              + (IF Owning(tid) THEN 0 ELSE Dim(tid, 1) * Dim(tid, 2))
  /\ blown' = TRUE
  /\ UNCHANGED dvars

(* the history is over: the iterator is gone, then everything handed out is given up *)
Finish ==
  /\ Ev[1] = "e" /\ Ev[4] = "ok"
  /\ Ev[6] = <<0>>                       \* no double drop, no garbage, no use after drop
  /\ IF Owning(tid)
     THEN /\ Ev[5] = <<>>
          /\ IF ElT(tid) = "cp" THEN Ev[7] = <<>> ELSE blown \/ SameBag(Ev[7], Flat(rest) \o held)
          /\ blown \/ Ev[8] = 0
     ELSE /\ Ev[5] = MatrixRows(tid)     \* the matrix is unchanged
          /\ Ev[7] = <<>>
          /\ \/ Ev[8] = (IF ElT(tid) = "cp" THEN 0 ELSE Dim(tid, 1) * Dim(tid, 2))
             \/ blown /\ Ev[8] >= Dim(tid, 1) * Dim(tid, 2)
  /\ rest' = <<>> /\ held' = <<>> /\ UNCHANGED blown

(* the matrix itself is dropped *)
FinishOwner ==
  /\ Ev[1] = "E" /\ Ev[4] = "ok" /\ Ev[6] = <<0>>
  /\ SameBag(Ev[7], Flat(MatrixRows(tid)))
  /\ blown \/ Ev[8] = 0
  /\ UNCHANGED <<dvars, blown>>

Step == /\ l <= Len(Trace[tid].ev)
        /\ Call \/ Fault \/ Finish \/ FinishOwner
        /\ l' = l + 1 /\ tid' = tid
Done == l > Len(Trace[tid].ev) /\ UNCHANGED vars

Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
