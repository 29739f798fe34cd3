SPECIFICATION Spec
CONSTANTS MaxN = 5
 Variant = "fixed"
 MayPanic = TRUE
INVARIANTS NoFault AllAccounted Exact CursorsInRange
PROPERTY Refines
