----------------------------- MODULE GaussCheck -----------------------------
(***************************************************************************)
(* The oracles of LinDef and Gauss against one another and against the     *)
(* laws that characterise a determinant, exhaustively on small matrices    *)
(* over prime fields and on a random sample of larger ones.                *)
(***************************************************************************)
EXTENDS LinDef, Gauss, IOUtils

Square(n, q) == [1..n -> [1..n -> 0..(q - 1)]]
Swap(A, i, j) == [A EXCEPT ![i] = A[j], ![j] = A[i]]
TransposeOf(A) == LET n == Len(A) IN [i \in 1..n |-> [j \in 1..n |-> A[j][i]]]
AsSeq(A, n) == [i \in 1..n |-> [j \in 1..n |-> A[i][j]]]

Agree(A, q) == LET d == DetDef(A, q) IN d = GDet(A, q) /\ d = Leibniz(A, q)

(* expansion along any column, with the cofactors of CofDef: what determinant() falls back to *)
ColumnExpansion(A, j, q) == LET n == Len(A) IN
  SumMod([i \in 1..n |-> (A[i][j] * CofDef(A, i, j, q)) % q], 1..n, q)

Laws(A, q) == LET n == Len(A) d == DetDef(A, q) IN
  /\ DetDef(TransposeOf(A), q) = d
  /\ \A i, j \in 1..n : i < j => DetDef(Swap(A, i, j), q) = (q - d) % q
  /\ \A j \in 1..n : ColumnExpansion(A, j, q) = d
  \* A * adjugate(A) = det(A) * I : inverse exists exactly when det # 0
  /\ LET Adj == [i \in 1..n |-> [j \in 1..n |-> CofDef(A, j, i, q)]] IN
       MatMul(A, Adj, q) = [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN d ELSE 0]]

(* Quantifying over a singleton makes TLC draw the matrix once *)
Drawn(n, q) == {[i \in 1..n |-> [j \in 1..n |-> TLCEval(RandomElement(0..(q - 1)))]]}
(* mostly zeros: zero pivots on the way *)
Sparse(n, q) == {[i \in 1..n |-> [j \in 1..n |-> IF TLCEval(RandomElement(1..3)) = 1 THEN TLCEval(RandomElement(1..(q - 1))) ELSE 0]]}
(* rank-deficient: the last row is the sum of the others *)
Deficient(A, q) == LET n == Len(A) IN
  {[i \in 1..n |-> IF i < n THEN A[i] ELSE [j \in 1..n |-> SumMod([k \in 1..(n - 1) |-> A[k][j]], 1..(n - 1), q)]]}

ASSUME \A q \in {2, 3, 5} : DetDef(<<>>, q) = 1 /\ GDet(<<>>, q) = 1
ASSUME \A q \in {2, 3, 5} : \A n \in 1..2 : \A A \in Square(n, q) : Agree(AsSeq(A, n), q) /\ Laws(AsSeq(A, n), q)
ASSUME \A q \in {2, 3} : \A A \in Square(3, q) : Agree(AsSeq(A, 3), q)
ASSUME \A A \in Square(3, 2) : Laws(AsSeq(A, 3), 2)
ASSUME \A x \in 1..60 : \A A \in Drawn(4, 7) : Agree(A, 7) /\ Laws(A, 7)
ASSUME \A x \in 1..20 : \A A \in Sparse(4, 7) : Agree(A, 7) /\ Laws(A, 7)
ASSUME \A n \in 5..7 : \A x \in 1..8 : \A A \in Drawn(n, 11) : DetDef(A, 11) = GDet(A, 11)
ASSUME \A n \in 4..8 : \A x \in 1..20 : \A A \in Sparse(n, 13) : DetDef(A, 13) = GDet(A, 13)
ASSUME \A n \in 4..8 : \A x \in 1..3 : \A B \in Drawn(n, 13) : \A A \in Deficient(B, 13) :
         DetDef(A, 13) = 0 /\ GDet(A, 13) = 0
(* multiplicative; above 8 x 8, where the elimination is the only oracle, too *)
ASSUME \A n \in 2..6 : \A x \in 1..6 : \A A \in Drawn(n, 13), B \in Drawn(n, 13) : \A M \in {MatMul(A, B, 13)} :
         DetDef(M, 13) = (DetDef(A, 13) * DetDef(B, 13)) % 13
ASSUME \A n \in {9, 12, 17} : \A x \in 1..3 : \A A \in Drawn(n, 13), B \in Sparse(n, 13) : \A M \in {MatMul(A, B, 13)} :
         /\ GDet(M, 13) = (GDet(A, 13) * GDet(B, 13)) % 13
         /\ GDet(Swap(A, 2, n), 13) = (13 - GDet(A, 13)) % 13
         /\ GDet(TransposeOf(B), 13) = GDet(B, 13)
=============================================================================
