SPECIFICATION Spec
CONSTANTS Dim = 3
 Q = 2
 Algs = {"det"}
 Swap = TRUE
 FallBack = FALSE
INVARIANTS Value
