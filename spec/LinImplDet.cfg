SPECIFICATION Spec
CONSTANTS Dim = 3
 Q = 3
 Algs = {"det"}
 Swap = TRUE
 FallBack = TRUE
INVARIANTS SameDet Value
PROPERTY Ends
