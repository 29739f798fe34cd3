------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* Element types that are no ring.                                         *)
(*                                                                         *)
(* 1. IEEE floating point numbers, reduced to what is exact: integers of   *)
(*    moderate size, the two infinities and NaN (zeros are read without    *)
(*    their sign).  Zero times infinity is NaN, so a product in which a    *)
(*    zero factor is skipped is a different product.                       *)
(* 2. Elements whose operations take and return different types: position  *)
(*    for position, the operation on left and right operand is recorded as *)
(*    the number HOp(op, left, right).                                     *)
(* 3. Matrices of integers scaled by a power of two far from one, whose    *)
(*    determinant and inverse are exact.                                   *)
(*                                                                         *)
(* Events: <<op, form, bits, dims, scale, args, outcome, results>>         *)
(***************************************************************************)
EXTENDS Integers, Sequences

INF == 1000001   NINF == -1000001   NAN == 1000003
FFin(x) == x \notin {INF, NINF, NAN}
FNeg(x) == IF x = NAN THEN NAN ELSE -x
FAdd(x, y) == IF x = NAN \/ y = NAN THEN NAN
              ELSE IF FFin(x) THEN (IF FFin(y) THEN x + y ELSE y)
              ELSE IF FFin(y) \/ x = y THEN x ELSE NAN
FSub(x, y) == FAdd(x, FNeg(y))
FSgn(x, y) == IF (x < 0) = (y < 0) THEN INF ELSE NINF
FMul(x, y) == IF x = NAN \/ y = NAN THEN NAN
              ELSE IF FFin(x) /\ FFin(y) THEN x * y
              ELSE IF x = 0 \/ y = 0 THEN NAN ELSE FSgn(x, y)
(* only asked for finite y that divide x; zero is positive *)
FDiv(x, y) == IF x = NAN \/ y = NAN THEN NAN
              ELSE IF ~FFin(y) THEN (IF FFin(x) THEN 0 ELSE NAN)
              ELSE IF y = 0 THEN (IF x = 0 THEN NAN ELSE IF x < 0 THEN NINF ELSE INF)
              ELSE IF ~FFin(x) THEN FSgn(x, y)
              ELSE IF x < 0 THEN (IF y < 0 THEN (-x) \div (-y) ELSE -((-x) \div y)) ELSE (IF y < 0 THEN -(x \div (-y)) ELSE x \div y)
FEq(x, y) == x # NAN /\ y # NAN /\ x = y

HOp(op, x, y) == 100000 * op + 1000 * x + y

Half(v, k) == SubSeq(v, 1, k)
Rest(v, k) == SubSeq(v, k + 1, Len(v))
RECURSIVE FSumTo(_, _)
FSumTo(f, n) == IF n = 0 THEN 0 ELSE FAdd(FSumTo(f, n - 1), f[n])
FDot(x, y) == FSumTo([k \in 1..Len(x) |-> FMul(x[k], y[k])], Len(x))
FRow(A, c, i) == [k \in 1..c |-> A[(i - 1) * c + k]]
FCol(A, r, c, j) == [k \in 1..r |-> A[(k - 1) * c + j]]
FProd(A, B, l, n, r) == [q \in 1..(l * r) |-> FDot(FRow(A, n, ((q - 1) \div r) + 1), FCol(B, n, r, ((q - 1) % r) + 1))]
Zip(x, y, F(_, _)) == [k \in 1..Len(x) |-> F(x[k], y[k])]
FTruth(b) == IF b THEN 1 ELSE 0
FCross(x, y) == LET t(a, b, c, d) == FSub(FMul(x[a], y[b]), FMul(x[c], y[d])) IN <<t(2, 3, 3, 2), t(3, 1, 1, 3), t(1, 2, 2, 1)>>

(* matrices of integers *)
RECURSIVE IDet(_)
IMinor(A, j) == [i \in 1..(Len(A) - 1) |-> [k \in 1..(Len(A) - 1) |-> A[i + 1][IF k < j THEN k ELSE k + 1]]]
RECURSIVE ISum(_, _)
ISum(f, n) == IF n = 0 THEN 0 ELSE ISum(f, n - 1) + f[n]
IDet(A) == IF Len(A) = 0 THEN 1 ELSE ISum([j \in 1..Len(A) |-> IF A[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * IDet(IMinor(A, j))], Len(A))
Rows(v, n) == [i \in 1..n |-> [j \in 1..n |-> v[(i - 1) * n + j]]]
FAbs(x) == IF x < 0 THEN -x ELSE x

FWant(op, form, d, v) ==
  LET k == d[1] * d[2]  x == Half(v, k)  y == Rest(v, k) IN
  CASE op = "fmm" -> FProd(Half(v, d[1] * d[2]), Rest(v, d[1] * d[2]), d[1], d[2], d[3])
    [] op = "fmv" -> FProd(x, y, d[1], d[2], 1)
    [] op = "fdot" -> <<FDot(x, y)>>
    [] op = "fcross" -> FCross(x, y)
    [] op = "fadd" -> Zip(x, y, FAdd)
    [] op = "fsub" -> Zip(x, y, FSub)
    [] op = "fmul" -> [i \in 1..k |-> FMul(x[i], y[1])]
    [] op = "fdiv" -> [i \in 1..k |-> FDiv(x[i], y[1])]
    [] op = "fneg" -> [i \in 1..k |-> FNeg(x[i])]
    [] op = "fsum" -> <<FSumTo(x, k)>>
    [] op = "fiszero" -> <<FTruth(\A i \in 1..k : x[i] = 0)>>
    [] op = "feq" -> <<FTruth(\A i \in 1..k : FEq(x[i], y[i])), FTruth(\A i \in 1..k : FEq(x[i], x[i]))>>
    [] op = "fnorm" -> <<IF \E i \in 1..k : x[i] = NAN THEN NAN ELSE INF>>   \* asked with NaN or infinity, not both
    [] op = "funit" -> [i \in 1..k |-> IF \E q \in 1..k : x[q] = NAN THEN NAN ELSE IF \A q \in 1..k : x[q] = 0 THEN NAN ELSE IF FFin(x[i]) THEN 0 ELSE NAN]
    [] op = "hadd" -> Zip(x, y, LAMBDA a, b : HOp(1, a, b))
    [] op = "hsub" -> Zip(x, y, LAMBDA a, b : HOp(2, a, b))
    [] op = "hmul" -> [i \in 1..k |-> HOp(3, x[i], y[1])]
    [] op = "hdiv" -> [i \in 1..k |-> HOp(4, x[i], y[1])]
    [] op = "hneg" -> [i \in 1..k |-> HOp(5, x[i], 0)]
    [] op = "hmap" -> [i \in 1..k |-> HOp(6, x[i], i - 1)]

(* results are observed times 2^20, scaled back *)
DetClose(v, n, r) == Len(r) = 1 /\ FAbs(r[1] - 1048576 * IDet(Rows(v, n))) <= 1024
RECURSIVE InvDot(_, _, _, _, _, _)
InvDot(v, r, n, i, j, k) == IF k = 0 THEN 0 ELSE InvDot(v, r, n, i, j, k - 1) + v[(i - 1) * n + k] * r[1 + (k - 1) * n + j]
InvClose(v, n, r) ==
  /\ Len(r) = 1 + n * n /\ r[1] = 1
  /\ \A i, j \in 1..n : FAbs(InvDot(v, r, n, i, j, n) - (IF i = j THEN 1048576 ELSE 0)) <= 64 * n

FloatOK(e) ==
  /\ e[7] = "ok"
  /\ CASE e[1] = "fdet" -> DetClose(e[6], e[4][1], e[8])
       [] e[1] = "finv" -> InvClose(e[6], e[4][1], e[8])
       [] OTHER -> e[8] = FWant(e[1], e[2], e[4], e[6])
=============================================================================
