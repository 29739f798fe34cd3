-------------------------------- MODULE Gauss --------------------------------
(***************************************************************************)
(* Determinant by elimination over the integers modulo a prime q: the      *)
(* oracle for sizes where the definition (LinDef!DetDef) is too slow.      *)
(* GaussCheck.tla compares the two exhaustively on small matrices.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

InvMod(a, q) == CHOOSE x \in 1..(q - 1) : (x * a) % q = 1
(* rows k.. of A are still to be reduced; the leading k-1 columns are done *)
RECURSIVE GElim(_, _, _, _)
GElim(A, k, sign, q) ==
  LET n == Len(A) IN
  IF k > n THEN sign
  ELSE LET piv == {i \in k..n : A[i][k] # 0} IN
       IF piv = {} THEN 0
       ELSE LET i == CHOOSE i \in piv : \A x \in piv : i <= x
                B == TLCEval([A EXCEPT ![k] = A[i], ![i] = A[k]])
                v == TLCEval(InvMod(B[k][k], q))
                D == TLCEval([r \in 1..n |-> IF r <= k THEN B[r]
                        ELSE LET f == (B[r][k] * v) % q IN
                             TLCEval([c \in 1..n |-> IF c < k THEN B[r][c] ELSE (B[r][c] + (q - f) * B[k][c]) % q])])
            IN TLCEval((GElim(D, k + 1, IF i = k THEN sign ELSE (q - sign) % q, q) * B[k][k]) % q)
GDet(A, q) == GElim(A, 1, 1 % q, q)
=============================================================================
