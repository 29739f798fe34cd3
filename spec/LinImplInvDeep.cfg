SPECIFICATION Spec
CONSTANTS Dim = 4
 Q = 2
 Algs = {"inv"}
 Swap = TRUE
 FallBack = TRUE
INVARIANTS RowOps Reduced Inverted Singular
