----------------------------- MODULE LedgerTrace -----------------------------
(***************************************************************************)
(* Judges the complete sequence of creations, destructions and reads of    *)
(* elements recorded during one history against module Ledger.  A trace is *)
(* one line: ev (as in RowColTrace) and log, a sequence of <<kind, id>>    *)
(* with kind 0 create, 1 destroy, 2 read.                                  *)
(***************************************************************************)
EXTENDS Ledger, Sequences, Json, IOUtils, TLC

VARIABLES tid, l
vars == <<tid, l, alive, created>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Log == Trace[tid].log
(* only a panic coming out of a user callback, or refusing a surplus source, may leave elements behind *)
MayLeak == \E i \in 1..Len(Trace[tid].ev) : LET e == Trace[tid].ev[i] IN
             e[7] = "blown" \/ (e[7] = "panic" /\ e[1] = "vcolx" /\ e[6][2] > e[6][1])

Init == tid \in 1..Len(Trace) /\ l = 1 /\ LInit
Step == /\ l <= Len(Log)
        /\ LET k == Log[l][1]  id == Log[l][2] IN
             \/ k = 0 /\ LCreate(id)
             \/ k = 1 /\ LDrop(id)
             \/ k = 2 /\ LRead(id)
        /\ l' = l + 1 /\ tid' = tid
Over == l = Len(Log) + 1 /\ LOver(MayLeak) /\ l' = l + 1 /\ UNCHANGED <<tid, alive, created>>
Done == l = Len(Log) + 2 /\ UNCHANGED vars
Next == Step \/ Over \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
