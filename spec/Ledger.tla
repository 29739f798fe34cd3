-------------------------------- MODULE Ledger --------------------------------
(***************************************************************************)
(* Ownership.  Every element that ever exists has an identity; an identity *)
(* is created once, may be read while alive, and is destroyed at most once *)
(* (exactly once, unless a panic unwinds through the library).  Identity 0 *)
(* stands for memory that never was an element.                            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

VARIABLES alive, created

LInit == alive = {} /\ created = 0
LCreate(id) == /\ id = created + 1
               /\ created' = id
               /\ alive' = alive \cup {id}
LDrop(id) == /\ id \in alive
             /\ alive' = alive \ {id}
             /\ UNCHANGED created
LRead(id) == id \in alive /\ UNCHANGED <<alive, created>>
LOver(mayleak) == mayleak \/ alive = {}
=============================================================================
