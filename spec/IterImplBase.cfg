SPECIFICATION Spec
CONSTANTS MaxN = 5
 Variant = "base"
 MayPanic = TRUE
INVARIANTS NoFault AllAccounted Exact CursorsInRange

