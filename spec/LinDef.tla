------------------------------- MODULE LinDef -------------------------------
(* Determinant, minors and products of square matrices of numbers mod q, by definition. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* A: sequence of n rows of n numbers.  Laplace expansion along the last row, shared over column
   subsets: Lay(A, k, q)[S] is the determinant of rows 1..k and columns S (|S| = k). *)
Below(S, j) == Cardinality({x \in S : x < j})
RECURSIVE SumMod(_, _, _)
SumMod(f, S, q) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN (f[x] + SumMod(f, S \ {x}, q)) % q
RECURSIVE Lay(_, _, _)
Lay(A, k, q) ==
  IF k = 0 THEN [S \in {{}} |-> 1 % q]
  ELSE LET prev == TLCEval(Lay(A, k - 1, q))
           n == Len(A)
       IN [S \in {T \in SUBSET (1..n) : Cardinality(T) = k} |->
             SumMod([j \in S |-> (IF (k - 1 - Below(S, j)) % 2 = 0 THEN 1 ELSE q - 1) * ((A[k][j] * prev[S \ {j}]) % q)], S, q)]
DetDef(A, q) == IF Len(A) = 0 THEN 1 % q ELSE LET n == Len(A) IN Lay(A, n, q)[1..n]

(* the Leibniz formula itself, for comparison *)
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Inversions(f, n) == Cardinality({p \in (1..n) \X (1..n) : p[1] < p[2] /\ f[p[1]] > f[p[2]]})
RECURSIVE ProdPerm(_, _, _, _)
ProdPerm(A, f, i, q) == IF i = 0 THEN 1 % q ELSE (A[i][f[i]] * ProdPerm(A, f, i - 1, q)) % q
Leibniz(A, q) == LET n == Len(A) IN
  SumMod([f \in Perms(n) |-> (IF Inversions(f, n) % 2 = 0 THEN 1 ELSE q - 1) * ProdPerm(A, f, n, q)], Perms(n), q)

MinorOf(A, i, j) == LET n == Len(A) IN
  TLCEval([a \in 1..(n - 1) |-> [b \in 1..(n - 1) |-> A[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1]]])
(* 1-based position *)
CofDef(A, i, j, q) == ((IF (i + j) % 2 = 0 THEN 1 ELSE q - 1) * DetDef(MinorOf(A, i, j), q)) % q

RECURSIVE DotTo(_, _, _, _)
DotTo(r, c, k, q) == IF k = 0 THEN 0 ELSE (DotTo(r, c, k - 1, q) + ((r[k] * c[k]) % q)) % q
MatMul(A, B, q) == LET n == Len(A) IN
  TLCEval([i \in 1..n |-> [j \in 1..n |-> DotTo(A[i], TLCEval([k \in 1..n |-> B[k][j]]), n, q)]])
Ident(n, q) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 % q ELSE 0]]
=============================================================================
