------------------------------- MODULE Approx -------------------------------
(***************************************************************************)
(* Equality and approximate equality.  Elements are integers; 9999 is an   *)
(* element unequal to everything, itself included.  The element relations  *)
(* are those of the harness's element type, none symmetric; containers must relate exactly *)
(* when all pairs at the same position do, with the caller's tolerances or *)
(* the element type's defaults.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

NaN == 9999
DefEps == 2   DefRel == 3   DefUlps == 5
AbsV(x) == IF x < 0 THEN -x ELSE x
Dist(x, y) == AbsV(x - y)
EqEl(x, y) == x # NaN /\ y # NaN /\ x = y
RelEl(x, y, eps, mr) == x # NaN /\ y # NaN /\ (Dist(x, y) <= eps \/ 10 * Dist(x, y) <= mr * AbsV(y))
UlpsEl(x, y, eps, u) == x # NaN /\ y # NaN /\ (Dist(x, y) <= eps \/ (Dist(x, y) <= 4 * u /\ (y < 0 => x < 0)))
AllPairs(as, bs, R(_, _)) == \A k \in 1..Len(as) : R(as[k], bs[k])
Truth(b) == IF b THEN 1 ELSE 0

(* <<op, mode, r, c, a, b, eps, tol, outcome, results>>; mode: bit 0 epsilon given, bit 1 other tolerance given *)
Given(mode, bit, x, def) == IF (mode \div bit) % 2 = 1 THEN x ELSE def
ApproxOK(e) ==
  LET op == e[1]  mode == e[2]  as == e[5]  bs == e[6]
      eps == Given(mode, 1, e[7], DefEps)
      rel == AllPairs(as, bs, LAMBDA x, y : RelEl(x, y, eps, Given(mode, 2, e[8], DefRel)))
      ulp == AllPairs(as, bs, LAMBDA x, y : UlpsEl(x, y, eps, Given(mode, 2, e[8], DefUlps)))
      eq == AllPairs(as, bs, EqEl)
      x == IF op = "relative" THEN rel ELSE IF op = "ulps" THEN ulp ELSE eq
  IN /\ e[9] = "ok"
     /\ IF op = "defaults" THEN e[10] = <<DefEps, DefRel, DefUlps>>
        ELSE e[10] = <<Truth(x), Truth(~x)>>
=============================================================================
