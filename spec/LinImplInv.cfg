SPECIFICATION Spec
CONSTANTS Dim = 3
 Q = 3
 Algs = {"inv"}
 Swap = TRUE
 FallBack = TRUE
INVARIANTS RowOps Reduced Inverted Singular
PROPERTY Ends
