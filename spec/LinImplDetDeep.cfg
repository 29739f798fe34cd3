SPECIFICATION Spec
CONSTANTS Dim = 4
 Q = 2
 Algs = {"det"}
 Swap = TRUE
 FallBack = TRUE
INVARIANTS SameDet Value
