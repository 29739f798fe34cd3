-------------------------------- MODULE Norm --------------------------------
(***************************************************************************)
(* Euclidean norm and normalisation of vectors of integers scaled by a     *)
(* power of two (results are scaled back before they are recorded):        *)
(*   <<"norm", bits, n, scale, values, outcome, norm * 2^20 and norm * 2^8,*)
(*     rounded to integers; 1 if the norm is an integer>>                  *)
(*   <<"unit", bits, n, scale, values, outcome, elements * 2^20 (f32) or   *)
(*     2^28 (f64), rounded to integers>>                                   *)
(* Numbers stay below 2^31.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences
RECURSIVE SumSq(_, _)
SumSq(v, n) == IF n = 0 THEN 0 ELSE SumSq(v, n - 1) + v[n] * v[n]
RECURSIVE Bisect(_, _, _)        \* the largest m in lo..hi with m * m <= s
Bisect(s, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= s THEN Bisect(s, m, hi) ELSE Bisect(s, lo, m - 1)
AbsN(x) == IF x < 0 THEN -x ELSE x
(* the norm of a vector with one non-zero element needs no squares *)
Lone(v) == \E k \in 1..Len(v) : \A q \in 1..Len(v) : q # k => v[q] = 0
LoneAbs(v) == LET k == CHOOSE k \in 1..Len(v) : \A q \in 1..Len(v) : q # k => v[q] = 0 IN AbsN(v[k])
Root(v) == IF Lone(v) THEN LoneAbs(v) ELSE Bisect(SumSq(v, Len(v)), 0, 20000)
Integral(v) == Lone(v) \/ Root(v) * Root(v) = SumSq(v, Len(v))
(* x / m in units of 2^-20 or 2^-28, rounded down, for x in 0..m *)
Frac(x, m, b) == LET k == IF b = 32 THEN 1 ELSE 256
                     y == 1024 * x  z == 1024 * (y % m)  w == k * (z % m) IN
                 k * (1024 * (y \div m) + (z \div m)) + (w \div m)
SFrac(x, m, b) == IF x < 0 THEN -Frac(-x, m, b) ELSE Frac(x, m, b)
(* all squares and their sums are representable, and so is the norm: nothing is rounded *)
Exact(b, v) == b = 64 \/ (Lone(v) /\ LoneAbs(v) <= 4096) \/ (~Lone(v) /\ SumSq(v, Len(v)) <= 16777216)
NormOK(e) ==
  LET v == e[5]  m == Root(v) IN
  /\ e[6] = "ok"
  /\ IF e[1] = "norm"
     THEN IF Integral(v) THEN IF m < 2000 THEN AbsN(e[7][1] - 1048576 * m) <= 2 * m ELSE AbsN(e[7][2] - 256 * m) <= 1 + (IF e[2] = 32 THEN m \div 4096 ELSE 0)
               /\ Exact(e[2], v) => e[7][3] = 1
          ELSE LET q == e[7][2]  s == SumSq(v, Len(v)) IN (q - 1) * (q - 1) <= 65536 * s /\ 65536 * s <= (q + 1) * (q + 1)
     ELSE                         \* only asked for non-zero vectors with an integral norm
          /\ Len(e[7]) = Len(v)
          /\ \A k \in 1..Len(v) : AbsN(e[7][k] - SFrac(v[k], m, e[2])) <= 5
=============================================================================
