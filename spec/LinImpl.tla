------------------------------ MODULE LinImpl ------------------------------
(***************************************************************************)
(* The elimination algorithms behind inverse() and determinant() from 4x4  *)
(* on, one row operation per step, on every Dim x Dim matrix over the      *)
(* integers modulo Q.                                                      *)
(*   Swap     : inverse() brings up a row when the pivot is zero (TRUE: as *)
(*              in this tree; FALSE: as first found - finding F8)          *)
(*   FallBack : determinant() expands along column 0 when it meets a zero  *)
(*              pivot (FALSE: it would go on with the zero)                *)
(* Checked: the loop invariants, that inverse() answers None exactly on    *)
(* singular matrices and otherwise the two-sided inverse, and that         *)
(* determinant() is the determinant, both against LinDef.                  *)
(***************************************************************************)
EXTENDS LinDef, Gauss
CONSTANTS Dim, Q, Algs, Swap, FallBack

VARIABLES orig, mat, inv,
          alg,        \* "inv" | "det"
          pc,         \* pivot | scale | elim | some | none | cof
          i, j        \* 1-based pivot and row cursor
vars == <<orig, mat, inv, alg, pc, i, j>>

Rows == 1..Dim
Seq2(A) == [r \in Rows |-> [c \in Rows |-> A[r][c]]]
Scaled(row, f) == [c \in Rows |-> (row[c] * f) % Q]
Minus(row, piv, f) == [c \in Rows |-> (row[c] + (Q - f) * piv[c]) % Q]

Init == /\ \E A \in [Rows -> [Rows -> 0..(Q - 1)]] : orig = Seq2(A)
        /\ mat = orig /\ inv = Ident(Dim, Q)
        /\ alg \in Algs
        /\ pc = "pivot" /\ i = 1 /\ j = 1

(* ---- inverse *)
PivotI ==
  /\ alg = "inv" /\ pc = "pivot" /\ i <= Dim
  /\ LET cand == IF Swap THEN {p \in i..Dim : mat[p][i] # 0} ELSE {p \in {i} : mat[p][i] # 0} IN
     IF cand = {} THEN pc' = "none" /\ UNCHANGED <<mat, inv>>
     ELSE LET p == CHOOSE p \in cand : \A x \in cand : p <= x IN
          /\ mat' = [mat EXCEPT ![i] = mat[p], ![p] = mat[i]]
          /\ inv' = [inv EXCEPT ![i] = inv[p], ![p] = inv[i]]
          /\ pc' = "scale"
  /\ UNCHANGED <<orig, alg, i, j>>
ScaleI ==
  /\ alg = "inv" /\ pc = "scale"
  /\ LET r == InvMod(mat[i][i], Q) IN
     /\ mat' = [mat EXCEPT ![i] = Scaled(@, r)]
     /\ inv' = [inv EXCEPT ![i] = Scaled(@, r)]
  /\ pc' = "elim" /\ j' = 1
  /\ UNCHANGED <<orig, alg, i>>
ElimI ==
  /\ alg = "inv" /\ pc = "elim" /\ j <= Dim
  /\ IF j = i THEN UNCHANGED <<mat, inv>>
     ELSE LET a == mat[j][i] IN
          /\ mat' = [mat EXCEPT ![j] = Minus(@, mat[i], a)]
          /\ inv' = [inv EXCEPT ![j] = Minus(@, inv[i], a)]
  /\ j' = j + 1
  /\ UNCHANGED <<orig, alg, pc, i>>
NextI ==
  /\ alg = "inv" /\ pc = "elim" /\ j > Dim
  /\ i' = i + 1 /\ pc' = "pivot"
  /\ UNCHANGED <<orig, mat, inv, alg, j>>
DoneI == /\ alg = "inv" /\ pc = "pivot" /\ i > Dim /\ pc' = "some"
         /\ UNCHANGED <<orig, mat, inv, alg, i, j>>

(* ---- determinant: rows below the pivot, the pivot tested before each row *)
StartD == /\ alg = "det" /\ pc = "pivot" /\ i <= Dim
          /\ pc' = "elim" /\ j' = i + 1
          /\ UNCHANGED <<orig, mat, inv, alg, i>>
ElimD ==
  /\ alg = "det" /\ pc = "elim" /\ j <= Dim
  /\ IF mat[i][i] = 0 /\ FallBack THEN pc' = "cof" /\ UNCHANGED <<mat, j>>
     ELSE LET f == IF mat[i][i] = 0 THEN 0 ELSE (mat[j][i] * InvMod(mat[i][i], Q)) % Q IN
          /\ mat' = [mat EXCEPT ![j] = Minus(@, mat[i], f)]
          /\ j' = j + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<orig, inv, alg, i>>
NextD == /\ alg = "det" /\ pc = "elim" /\ j > Dim
         /\ i' = i + 1 /\ pc' = "pivot"
         /\ UNCHANGED <<orig, mat, inv, alg, j>>
DoneD == /\ alg = "det" /\ pc = "pivot" /\ i > Dim /\ pc' = "some"
         /\ UNCHANGED <<orig, mat, inv, alg, i, j>>
Over == pc \in {"some", "none", "cof"} /\ UNCHANGED vars

Next == PivotI \/ ScaleI \/ ElimI \/ NextI \/ DoneI \/ StartD \/ ElimD \/ NextD \/ DoneD \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Diagonal(_)
Diagonal(k) == IF k = 0 THEN 1 % Q ELSE (Diagonal(k - 1) * mat[k][k]) % Q
Expansion == SumMod([r \in Rows |-> (orig[r][1] * CofDef(orig, r, 1, Q)) % Q], Rows, Q)

(* ---- what holds at every step *)
RowOps == alg = "inv" => MatMul(inv, orig, Q) = mat
Reduced == alg = "inv" => \A c \in 1..(i - 1) : \A r \in Rows : c <= Dim => mat[r][c] = (IF r = c THEN 1 % Q ELSE 0)
SameDet == alg = "det" /\ FallBack => DetDef(mat, Q) = DetDef(orig, Q)
(* ---- and at the end *)
Inverted == pc = "some" /\ alg = "inv" =>
              /\ DetDef(orig, Q) # 0
              /\ MatMul(inv, orig, Q) = Ident(Dim, Q) /\ MatMul(orig, inv, Q) = Ident(Dim, Q)
Singular == pc = "none" => DetDef(orig, Q) = 0
Value == /\ pc = "some" /\ alg = "det" => Diagonal(Dim) = DetDef(orig, Q)
         /\ pc = "cof" => Expansion = DetDef(orig, Q)
Ends == <>(pc \in {"some", "none", "cof"})
=============================================================================
