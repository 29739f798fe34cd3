SPECIFICATION Spec
CONSTANTS Dim = 3
 Q = 2
 Algs = {"inv"}
 Swap = FALSE
 FallBack = TRUE
INVARIANTS Singular
