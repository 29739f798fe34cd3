------------------------------- MODULE CatGen -------------------------------
(***************************************************************************)
(* Generates histories of container operations: systematic families per    *)
(* area (every shape, operand form, position, access path) and random      *)
(* walks of the register machine that track the shapes held in registers.  *)
(* A history is [m, p, ops]; an op is <<name, form, d, a, b, params>>.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC, Dims

Deep == IOEnv.DEEP = "1"
Area == IOEnv.AREA
Family == IOEnv.FAMILY

Op(n, f, d, a, b, p) == <<n, f, d, a, b, p>>
H(m, p, ops) == [m |-> m, p |-> p, ops |-> ops]
SymH(ops) == H("sym", 7, ops)

DSeq(S, F(_)) == LET q == SetToSeq(S) IN FlattenSeq([i \in 1..Len(q) |-> F(q[i])])
One_(x) == <<x>>

Base(n, b) == [i \in 1..n |-> b + i]
MkV(d, n, b) == Op("vnew", 0, d, 0, 0, <<n>> \o Base(n, b))
MkVv(d, vals) == Op("vnew", 0, d, 0, 0, <<Len(vals)>> \o vals)
MkM(d, s, b) == Op("mgen", 0, d, 0, 0, <<s[1], s[2]>> \o Base(s[1] * s[2], b))
MkMv(d, s, vals) == Op("mgen", 0, d, 0, 0, <<s[1], s[2]>> \o vals)
Rnd(n, p) == TLCEval([i \in 1..n |-> RandomElement(0..(p - 1))])
(* few distinct values, so that zeros, ones and repetitions are frequent *)
Fewv(n) == TLCEval([i \in 1..n |-> RandomElement({0, 0, 1, 1, 2, 6})])
Const(n, x) == [i \in 1..n |-> x]
OneHot(n, i, x) == [k \in 1..n |-> IF k = i THEN x ELSE 0]

Positions(n) == IF Deep \/ n <= 9 THEN 0..(n - 1) ELSE {0, 1, n \div 2 - 1, n \div 2, n - 2, n - 1}
MPositions(s) == {x \in Positions(s[1]) \X Positions(s[2]) : Deep \/ s[1] * s[2] <= 12 \/ x[1] = 0 \/ x[2] = 0 \/ x[1] = s[1] - 1 \/ x[2] = s[2] - 1 \/ x[1] = x[2]}
Square(S) == {s \in S : s[1] = s[2]}

-----------------------------------------------------------------------------
(* C07: constructors *)
CtorV == DSeq(VLens, LAMBDA n :
     LET ctor == {<<"vnew", Base(n, 0)>>, <<"vgen", Base(n, 0)>>, <<"vcol", Base(n, 0)>>} \cup {<<k, <<>>>> : k \in {"vdef", "vzero", "vmin", "vmax"}} IN
     DSeq(ctor, LAMBDA c : <<SymH(<<Op(c[1], 0, 1, 0, 0, <<n>> \o c[2])>>), H("gf", 11, <<Op(c[1], 0, 1, 0, 0, <<n>> \o c[2])>>)>>)
     \o <<SymH(<<Op("vzero", 0, 1, 0, 0, <<n>>), Op("viszero", 0, 0, 1, 0, <<>>), Op("vdef", 0, 2, 0, 0, <<n>>), Op("viszero", 0, 0, 2, 0, <<>>)>>)>>
     \o [i \in 1..n |-> H("gf", 11, <<MkVv(1, OneHot(n, i, 1 + (i % 10))), Op("viszero", 0, 0, 1, 0, <<>>)>>)])
CtorM == DSeq(MShapes, LAMBDA s :
     LET k == s[1] * s[2]  w == IF s[1] < s[2] THEN s[1] ELSE s[2]
         ctor == {<<"mnew", Base(k, 0)>>, <<"mgen", Base(k, 0)>>, <<"mdiag", Base(w, 0)>>} \cup {<<c, <<>>>> : c \in {"mdef", "mzero", "mmin", "mmax"}} IN
     DSeq(ctor, LAMBDA c : <<SymH(<<Op(c[1], 0, 1, 0, 0, s \o c[2])>>), H("gf", 11, <<Op(c[1], 0, 1, 0, 0, s \o c[2])>>)>>)
     \o <<SymH(<<Op("mzero", 0, 1, 0, 0, s), Op("miszero", 0, 0, 1, 0, <<>>), Op("mdim", 0, 0, 1, 0, <<>>)>>)>>
     \o DSeq(MPositions(s), LAMBDA x : LET i == x[1] * s[2] + x[2] + 1 IN
              <<H("gf", 11, <<MkMv(1, s, OneHot(k, i, 1 + (i % 10))), Op("miszero", 0, 0, 1, 0, <<>>)>>)>>))
  \o DSeq(Square(MShapes), LAMBDA s : LET n == s[1] IN
       <<SymH(<<Op("mid", 0, 1, 0, 0, <<n>>), Op("mone", 0, 2, 0, 0, <<n>>), Op("meq", 0, 0, 1, 2, <<>>), Op("miszero", 0, 0, 1, 0, <<>>)>>),
         H("gf", 11, <<Op("mid", 0, 1, 0, 0, <<n>>), Op("mone", 0, 2, 0, 0, <<n>>), Op("meq", 0, 0, 1, 2, <<>>), Op("miszero", 0, 0, 1, 0, <<>>)>>)>>)
  \o DSeq(RShapes, LAMBDA s : LET k == s[1] * s[2] IN
       <<SymH(<<Op("vgen", 0, 1, 0, 0, <<k>> \o Base(k, 0)), Op("mfrom", 0, 2, 1, 0, s)>>)>>)

-----------------------------------------------------------------------------
(* C08: access paths *)
ReadAllV(r, n) == [i \in 1..7 |-> Op("vread", i - 1, 0, r, 0, <<n>>)]
WPathsV == 0..5
GPathsV == {0, 1, 2, 4, 5}
SIdx == {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>, <<3, 2>>, <<4, 0>>, <<4, 1>>, <<4, 2>>, <<4, 3>>, <<5, 0>>, <<5, 2>>, <<5, 3>>, <<5, 4>>,
         <<8, 0>>, <<8, 3>>, <<8, 4>>, <<8, 7>>, <<16, 8>>, <<16, 15>>, <<17, 0>>, <<17, 16>>, <<31, 30>>, <<32, 0>>, <<32, 15>>, <<32, 16>>, <<32, 31>>}
Outside(n) == {n, n + 1, 2 * n + 3, -1}
AccessV ==
  DSeq(VLens, LAMBDA n :
     <<SymH(<<MkV(1, n, 0), Op("vlen", 0, 0, 1, 0, <<>>)>> \o ReadAllV(1, n))>>
     \o DSeq(Positions(n), LAMBDA i :
          DSeq(GPathsV, LAMBDA f : <<SymH(<<MkV(1, n, 0), Op("vget", f, 0, 1, 0, <<i>>)>>)>>)
          \o DSeq(WPathsV, LAMBDA f : <<SymH(<<MkV(1, n, 0), Op("vset", f, 0, 1, 0, <<i, 99>>)>> \o (IF n <= 6 \/ Deep THEN ReadAllV(1, n) ELSE <<ReadAllV(1, n)[(i % 7) + 1]>>))>>))
     \o DSeq(Outside(n), LAMBDA i : <<SymH(<<MkV(1, n, 0), Op("vget", 0, 0, 1, 0, <<i>>), Op("vset", 0, 0, 1, 0, <<i, 99>>)>>)>>))
  \o DSeq(SIdx, LAMBDA x : <<SymH(<<MkV(1, x[1], 0), Op("vsget", 0, 0, 1, 0, <<x[2]>>), Op("vsset", 0, 0, 1, 0, <<x[2], 99>>), Op("vsget", 0, 0, 1, 0, <<x[2]>>)>> \o ReadAllV(1, x[1]))>>)
ReadAllM(r) == [i \in 1..7 |-> Op("mread", i - 1, 0, r, 0, <<>>)]
MSIdx == {<<1, 1, 0, 0>>, <<1, 4, 0, 0>>, <<1, 4, 0, 3>>, <<4, 1, 0, 0>>, <<4, 1, 3, 0>>, <<4, 1, 2, 0>>,
          <<2, 2, 0, 0>>, <<2, 2, 0, 1>>, <<2, 2, 1, 0>>, <<2, 2, 1, 1>>, <<2, 3, 0, 0>>, <<2, 3, 0, 1>>, <<2, 3, 0, 2>>, <<2, 3, 1, 0>>, <<2, 3, 1, 1>>, <<2, 3, 1, 2>>,
          <<3, 2, 0, 0>>, <<3, 2, 0, 1>>, <<3, 2, 1, 0>>, <<3, 2, 1, 1>>, <<3, 2, 2, 0>>, <<3, 2, 2, 1>>,
          <<4, 4, 0, 0>>, <<4, 4, 0, 3>>, <<4, 4, 3, 0>>, <<4, 4, 3, 3>>, <<4, 4, 1, 2>>, <<4, 4, 2, 1>>,
          <<3, 5, 2, 4>>, <<3, 5, 0, 4>>, <<3, 5, 2, 0>>, <<3, 17, 2, 16>>, <<17, 3, 16, 0>>, <<17, 3, 16, 2>>, <<17, 3, 0, 2>>}
OutsideM(s) == ({s[1], s[1] + 1, -1} \X {0, s[2] - 1, s[2], -1}) \cup ({0, s[1] - 1} \X {s[2], s[2] + 1, 2 * s[2], -1})
AccessM ==
  DSeq(MShapes, LAMBDA s :
     <<SymH(<<MkM(1, s, 0), Op("mdim", 0, 0, 1, 0, <<>>)>> \o ReadAllM(1))>>
     \o DSeq(MPositions(s), LAMBDA x :
          DSeq({0, 1}, LAMBDA f : <<SymH(<<MkM(1, s, 0), Op("mget", f, 0, 1, 0, x), Op("mset", f, 0, 1, 0, x \o <<9999>>)>> \o
                                        (IF s[1] * s[2] <= 6 \/ Deep THEN ReadAllM(1) ELSE <<ReadAllM(1)[((x[1] + 2 * x[2]) % 7) + 1]>>))>>))
     \o DSeq({x \in OutsideM(s) : ~(x[1] \in 0..(s[1] - 1) /\ x[2] \in 0..(s[2] - 1))}, LAMBDA x : <<SymH(<<MkM(1, s, 0), Op("mget", 0, 0, 1, 0, x), Op("mset", 0, 0, 1, 0, x \o <<9999>>)>>)>>)
     \o DSeq(0..s[2], LAMBDA j : <<SymH(<<MkM(1, s, 0), Op("mcolin", 0, 0, 1, 0, <<j>>)>>)>>)
     \o <<SymH(<<MkM(1, s, 0), Op("mcolin", 0, 0, 1, 0, <<-1>>), Op("mcolin", 0, 0, 1, 0, <<s[2] + 5>>)>>)>>)
  \o DSeq(MSIdx, LAMBDA x : <<SymH(<<MkM(1, <<x[1], x[2]>>, 0), Op("msget", 0, 0, 1, 0, <<x[3], x[4]>>), Op("msset", 0, 0, 1, 0, <<x[3], x[4], 9999>>),
                                     Op("msget", 0, 0, 1, 0, <<x[3], x[4]>>)>> \o ReadAllM(1))>>)
(* histories of writes through varying paths *)
WritesV(cnt) == [q \in 1..cnt |-> LET n == RandomElement(1..32) IN
     SymH(<<MkV(1, n, 0)>> \o [i \in 1..6 |-> Op("vset", RandomElement(WPathsV), 0, 1, 0, <<RandomElement(0..(n - 1)), 100 + i>>)] \o ReadAllV(1, n))]
WritesM(cnt) == [q \in 1..cnt |-> LET s == RandomElement({x \in MShapes : x[1] > 0 /\ x[2] > 0}) IN
     SymH(<<MkM(1, s, 0)>> \o [i \in 1..6 |-> Op("mset", RandomElement({0, 1}), 0, 1, 0, <<RandomElement(0..(s[1] - 1)), RandomElement(0..(s[2] - 1)), 10000 + i>>)] \o ReadAllM(1))]

-----------------------------------------------------------------------------
(* C09: elementwise arithmetic.  V(vals) builds operands: symbolic or small numbers *)
EwOpsS(a1, a2, k, mat, sc) ==   \* k: "v" or "m"; a1, a2 operand constructors for registers 1 and 2; sc the scalar
  LET nm(x) == k \o x IN
  [f \in 1..4 |-> <<a1, a2, Op(nm("add"), f - 1, 3, 1, 2, <<>>)>>]
  \o [f \in 1..4 |-> <<a1, a2, Op(nm("sub"), f - 1, 3, 1, 2, <<>>)>>]
  \o << <<a1, Op(nm("add"), 3, 3, 1, 1, <<>>), Op(nm("sub"), 3, 4, 1, 1, <<>>)>>,
        <<a1, a2, Op(nm("adda"), 0, 0, 1, 2, <<>>)>>, <<a1, a2, Op(nm("suba"), 0, 0, 1, 2, <<>>)>>,
        <<a1, Op(nm("neg"), 0, 3, 1, 0, <<>>)>>,
        <<a1, Op(nm("muls"), 0, 3, 1, 0, <<sc>>)>>, <<a1, Op(nm("muls"), 1, 3, 1, 0, <<sc>>)>>,
        <<a1, Op(nm("divs"), 0, 3, 1, 0, <<sc>>)>>,
        <<a1, Op(nm("mulsa"), 0, 0, 1, 0, <<sc>>)>>, <<a1, Op(nm("divsa"), 0, 0, 1, 0, <<sc>>)>> >>
  \o (IF mat THEN <<>> ELSE << <<a1, Op(nm("divs"), 1, 3, 1, 0, <<sc>>)>>, <<a1, Op(nm("mulsa"), 1, 0, 1, 0, <<sc>>)>>, <<a1, Op(nm("divsa"), 1, 0, 1, 0, <<sc>>)>> >>)
EwOps(a1, a2, k, mat) == EwOpsS(a1, a2, k, mat, 601)
(* integers of both signs *)
Ints(n) == TLCEval([i \in 1..n |-> RandomElement(-30..30)])
Hs(m, p, opss) == [i \in 1..Len(opss) |-> H(m, p, opss[i])]
(* 601 is 1 mod 2, 3 and 5 and 6 mod 7, 601 mod 10007 *)
ArithV == DSeq(VLens, LAMBDA n : Hs("sym", 7, EwOps(MkV(1, n, 0), MkV(2, n, 100), "v", FALSE))
                                 \o Hs("gf", 7, EwOps(MkVv(1, Fewv(n)), MkVv(2, Fewv(n)), "v", FALSE))
                                 \o Hs("int", 0, EwOpsS(MkVv(1, Ints(n)), MkVv(2, Ints(n)), "v", FALSE, 3)) \o Hs("int", 0, EwOpsS(MkVv(1, Ints(n)), MkVv(2, Ints(n)), "v", FALSE, -7)))
ArithM == DSeq(MShapes, LAMBDA s : LET k == s[1] * s[2] IN Hs("sym", 7, EwOps(MkM(1, s, 0), MkM(2, s, 500), "m", TRUE))
                                 \o Hs("gf", 7, EwOps(MkMv(1, s, Fewv(k)), MkMv(2, s, Fewv(k)), "m", TRUE))
                                 \o Hs("int", 0, EwOpsS(MkMv(1, s, Ints(k)), MkMv(2, s, Ints(k)), "m", TRUE, 3)) \o Hs("int", 0, EwOpsS(MkMv(1, s, Ints(k)), MkMv(2, s, Ints(k)), "m", TRUE, -7)))

-----------------------------------------------------------------------------
(* C10: products *)
ProdV == DSeq(VLens, LAMBDA n : <<SymH(<<MkV(1, n, 0), MkV(2, n, 100), Op("vdot", 0, 0, 1, 2, <<>>), Op("vdot", 0, 0, 1, 1, <<>>)>>),
                                  H("gf", 7, <<MkVv(1, Fewv(n)), MkVv(2, Fewv(n)), Op("vdot", 0, 0, 1, 2, <<>>)>>)>>)
  \o <<SymH(<<MkV(1, 3, 0), MkV(2, 3, 100), Op("vcross", 0, 3, 1, 2, <<>>), Op("vcross", 0, 4, 1, 1, <<>>)>>)>>
  \o [i \in 1..20 |-> H("gf", 7, <<MkVv(1, Fewv(3)), MkVv(2, Rnd(3, 7)), Op("vcross", 0, 3, 1, 2, <<>>)>>)]
ProdP == DSeq(PShapes, LAMBDA x : LET s == <<x[1], x[2]>> t == <<x[2], x[3]>> ks == x[1] * x[2] kt == x[2] * x[3] IN
       [f \in 1..4 |-> SymH(<<MkM(1, s, 0), MkM(2, t, 500), Op("mm", f - 1, 3, 1, 2, <<>>)>>)]
       \o [f \in 1..4 |-> H("gf", 7, <<MkMv(1, s, Fewv(ks)), MkMv(2, t, Fewv(kt)), Op("mm", f - 1, 3, 1, 2, <<>>)>>)]
       \o (IF x[1] = x[2] /\ x[2] = x[3] THEN <<SymH(<<MkM(1, s, 0), Op("mm", 3, 3, 1, 1, <<>>)>>)>> ELSE <<>>))
(* exponents around the word sizes; a sequence of several numbers is in base 65536 *)
BigExps == {<<e>> : e \in {31, 32, 63, 64, 65, 100, 127, 128, 255, 256, 257, 511, 1000, 4095, 32767, 32768, 65535}}
           \cup {<<1, 0>>, <<1, 1>>, <<32767, 65535>>, <<32768, 0>>, <<32768, 1>>, <<65535, 65535>>, <<1, 0, 0>>, <<1, 0, 3>>, <<5, 17, 12345>>,
                 <<32768, 0, 0, 0>>, <<65535, 65535, 65535, 65534>>, <<65535, 65535, 65535, 65535>>}
ProdM == DSeq(MShapes, LAMBDA s : LET k == s[1] * s[2] IN
       DSeq({0, 2}, LAMBDA f :
         <<SymH(<<MkM(1, s, 0), Op("vgen", 0, 2, 0, 0, <<s[2]>> \o Base(s[2], 500)), Op("mv", f, 3, 1, 2, <<>>)>>),
           H("gf", 7, <<MkMv(1, s, Fewv(k)), Op("vgen", 0, 2, 0, 0, <<s[2]>> \o Fewv(s[2])), Op("mv", f, 3, 1, 2, <<>>)>>)>>))
  \o DSeq(0..8, LAMBDA n : LET s == <<n, n>> IN
       <<SymH(<<MkM(1, s, 0), MkM(2, s, 500), Op("mma", 0, 0, 1, 2, <<>>)>>), H("gf", 10007, <<MkMv(1, s, Rnd(n * n, 10007)), MkMv(2, s, Fewv(n * n)), Op("mma", 0, 0, 1, 2, <<>>)>>)>>
       \o DSeq({0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 33} \cup (IF Deep THEN 9..40 ELSE {}), LAMBDA e : <<H("gf", 10007, <<MkMv(1, s, Rnd(n * n, 10007)), Op("mpow", 0, 2, 1, 0, <<e>>)>>)>>)
       \o DSeq(IF n > 4 /\ ~Deep THEN {} ELSE BigExps, LAMBDA ds : <<H("gf", 10007, <<MkMv(1, s, Rnd(n * n, 10007)), Op("mpow", 0, 2, 1, 0, ds)>>)>>)
       \o DSeq(0..(IF n <= 2 THEN 4 ELSE 2), LAMBDA e : <<SymH(<<MkM(1, s, 0), Op("mpow", 0, 2, 1, 0, <<e>>)>>)>>))

-----------------------------------------------------------------------------
(* C11: transposition, map, predicates, conjugation *)
PosList(S) == LET q == SetToSeq(S) IN FlattenSeq(q)
AllPos(s) == (0..(s[1] - 1)) \X (0..(s[2] - 1))
MapM == DSeq(MShapes, LAMBDA s : LET k == s[1] * s[2]  A == AllPos(s) IN
     <<SymH(<<MkM(1, s, 0), Op("mtransposed", 0, 2, 1, 0, <<>>)>> \o (IF <<s[2], s[1]>> \in MShapes THEN <<Op("mdim", 0, 0, 2, 0, <<>>), Op("mtransposed", 0, 3, 2, 0, <<>>)>> ELSE <<>>)),
       SymH(<<MkM(1, s, 0), Op("mmap", 0, 2, 1, 0, <<>>)>>),
       H("gf", 10007, <<MkMv(1, s, Rnd(k, 10007)), Op("mmap", 0, 2, 1, 0, <<>>)>>),
       SymH(<<MkM(1, s, 0), MkM(2, s, 500), Op("mconj", 0, 3, 1, 2, <<>>)>>),
       SymH(<<MkM(1, s, 0), Op("mclone", 0, 2, 1, 0, <<>>), Op("mall", 0, 0, 1, 0, PosList(A)), Op("many", 0, 0, 1, 0, <<>>), Op("mall", 0, 0, 1, 0, <<>>), Op("many", 0, 0, 1, 0, PosList(A))>>)>>
     \o DSeq(MPositions(s), LAMBDA x : <<SymH(<<MkM(1, s, 0), Op("mall", 0, 0, 1, 0, PosList(A \ {x})), Op("many", 0, 0, 1, 0, x)>>)>>)
     \o (IF s[1] = s[2] THEN <<SymH(<<MkM(1, s, 0), Op("mtranspose", 0, 0, 1, 0, <<>>), Op("mtranspose", 0, 0, 1, 0, <<>>)>>)>> ELSE <<>>))

-----------------------------------------------------------------------------
(* C14: sums, extrema, clamping *)
XLens == {1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 31, 32}
ExtOps(k, r) == <<Op(k \o "extreme", 0, 0, r, 0, <<>>), Op(k \o "extreme", 1, 0, r, 0, <<>>),
                  Op(k \o "extreme", 2, 0, r, 0, <<5, 1>>), Op(k \o "extreme", 3, 0, r, 0, <<5, 1>>),
                  Op(k \o "extreme", 2, 0, r, 0, <<1, 3>>), Op(k \o "extreme", 3, 0, r, 0, <<1, 3>>)>>
Tuples(n, S) == {[i \in 1..n |-> f[i]] : f \in [1..n -> S]}
ClampPairs == {<<lo, hi>> \in (0..6) \X (0..6) : lo <= hi}
IntBounds == {<<-5, 7>>, <<-20, -10>>, <<0, 0>>, <<-40, 40>>, <<12, 13>>}
SumV == DSeq(VLens, LAMBDA n : <<SymH(<<MkV(1, n, 0), Op("vsum", 0, 0, 1, 0, <<>>)>>), H("gf", 7, <<MkVv(1, Rnd(n, 7)), Op("vsum", 0, 0, 1, 0, <<>>)>>)>>
                               \o DSeq({<<0, 6>>, <<2, 4>>, <<3, 3>>, <<0, 0>>, <<6, 6>>}, LAMBDA q : LET v == Rnd(n, 7) IN
                                    <<H("gf", 7, <<MkVv(1, v), Op("vclamped", 0, 2, 1, 0, q), Op("vclamp", 0, 0, 1, 0, q), Op("veq", 0, 0, 1, 2, <<>>)>>)>>))
  \o DSeq(ClampPairs, LAMBDA q : <<H("gf", 7, <<MkVv(1, <<0, 1, 2, 3, 4, 5, 6>>), Op("vclamped", 0, 2, 1, 0, q), Op("vclamp", 0, 0, 1, 0, q), Op("veq", 0, 0, 1, 2, <<>>)>>)>>)
  \o DSeq(UNION {Tuples(n, IF n < 4 THEN 0..3 ELSE 0..2) : n \in 1..(IF Deep THEN 5 ELSE 4)}, LAMBDA v : <<H("gf", 7, <<MkVv(1, v)>> \o ExtOps("v", 1))>>)
  \o DSeq(XLens, LAMBDA n : DSeq(Positions(n), LAMBDA i :
       <<H("gf", 101, <<MkVv(1, [k \in 1..n |-> IF k = i + 1 THEN 90 ELSE 20 + ((k * 7) % 50)])>> \o ExtOps("v", 1)),
         H("gf", 101, <<MkVv(1, [k \in 1..n |-> IF k = i + 1 THEN 3 ELSE 20 + ((k * 7) % 50)])>> \o ExtOps("v", 1))>>))
  \o DSeq(XLens, LAMBDA n : LET v == Ints(n) IN
       <<H("int", 0, <<MkVv(1, v)>> \o ExtOps("v", 1)), H("int", 0, <<MkVv(1, [i \in 1..n |-> v[i] - 40])>> \o ExtOps("v", 1)), H("int", 0, <<MkVv(1, v), Op("vsum", 0, 0, 1, 0, <<>>)>>)>>
       \o DSeq(IntBounds, LAMBDA q : <<H("int", 0, <<MkVv(1, v), Op("vclamped", 0, 2, 1, 0, q), Op("vclamp", 0, 0, 1, 0, q), Op("veq", 0, 0, 1, 2, <<>>)>>)>>))
SumM == DSeq(MShapes, LAMBDA s : LET k == s[1] * s[2]  v == Ints(k) IN
       DSeq(IntBounds, LAMBDA q : <<H("int", 0, <<MkMv(1, s, v), Op("msum", 0, 0, 1, 0, <<>>), Op("mclamped", 0, 2, 1, 0, q), Op("mclamp", 0, 0, 1, 0, q), Op("meq", 0, 0, 1, 2, <<>>)>>)>>)
       \o (IF s[1] = s[2] /\ s[1] \in 1..8 THEN <<H("int", 0, <<MkMv(1, s, v)>> \o ExtOps("m", 1)), H("int", 0, <<MkMv(1, s, [i \in 1..k |-> v[i] - 40])>> \o ExtOps("m", 1))>> ELSE <<>>))
  \o DSeq(MShapes, LAMBDA s : LET k == s[1] * s[2] IN
       <<SymH(<<MkM(1, s, 0), Op("msum", 0, 0, 1, 0, <<>>)>>), H("gf", 7, <<MkMv(1, s, Rnd(k, 7)), Op("msum", 0, 0, 1, 0, <<>>)>>)>>
       \o DSeq({<<0, 6>>, <<2, 4>>, <<3, 3>>, <<0, 0>>, <<6, 6>>}, LAMBDA q : LET v == Rnd(k, 7) IN
            <<H("gf", 7, <<MkMv(1, s, v), Op("mclamped", 0, 2, 1, 0, q), Op("mclamp", 0, 0, 1, 0, q), Op("meq", 0, 0, 1, 2, <<>>)>>)>>))
  \o DSeq(Tuples(4, 0..(IF Deep THEN 3 ELSE 2)), LAMBDA v : <<H("gf", 7, <<MkMv(1, <<2, 2>>, v)>> \o ExtOps("m", 1))>>)
  \o DSeq(1..8, LAMBDA n : LET s == <<n, n>> IN DSeq(MPositions(s), LAMBDA x : LET i == x[1] * n + x[2] + 1 IN
       <<H("gf", 101, <<MkMv(1, s, [k \in 1..(n * n) |-> IF k = i THEN 90 ELSE 20 + ((k * 7) % 50)])>> \o ExtOps("m", 1)),
         H("gf", 101, <<MkMv(1, s, [k \in 1..(n * n) |-> IF k = i THEN 3 ELSE 20 + ((k * 7) % 50)])>> \o ExtOps("m", 1))>>))

-----------------------------------------------------------------------------
(* C15: equality: equal pairs, pairs that differ in exactly one place, all small pairs *)
EqV == DSeq(VLens, LAMBDA n :
      <<SymH(<<MkV(1, n, 0), MkV(2, n, 0), Op("veq", 0, 0, 1, 2, <<>>), Op("veq", 0, 0, 1, 1, <<>>), Op("vclone", 0, 3, 1, 0, <<>>), Op("veq", 0, 0, 3, 1, <<>>)>>)>>
      \o DSeq(0..(n - 1), LAMBDA i : <<SymH(<<MkV(1, n, 0), MkV(2, n, 0), Op("vset", 0, 0, 2, 0, <<i, 99>>), Op("veq", 0, 0, 1, 2, <<>>), Op("veq", 0, 0, 2, 1, <<>>)>>)>>))
   \o DSeq(UNION {Tuples(n, 0..1) \X Tuples(n, 0..1) : n \in 1..3}, LAMBDA q : <<H("gf", 2, <<MkVv(1, q[1]), MkVv(2, q[2]), Op("veq", 0, 0, 1, 2, <<>>)>>)>>)
EqM == DSeq(MShapes, LAMBDA s :
      <<SymH(<<MkM(1, s, 0), MkM(2, s, 0), Op("meq", 0, 0, 1, 2, <<>>), Op("meq", 0, 0, 1, 1, <<>>), Op("mclone", 0, 3, 1, 0, <<>>), Op("meq", 0, 0, 3, 1, <<>>)>>)>>
      \o DSeq(MPositions(s), LAMBDA x : <<SymH(<<MkM(1, s, 0), MkM(2, s, 0), Op("mset", 0, 0, 2, 0, x \o <<9999>>), Op("meq", 0, 0, 1, 2, <<>>), Op("meq", 0, 0, 2, 1, <<>>)>>)>>))
   \o DSeq(Tuples(4, 0..1) \X Tuples(4, 0..1), LAMBDA q : <<H("gf", 2, <<MkMv(1, <<2, 2>>, q[1]), MkMv(2, <<2, 2>>, q[2]), Op("meq", 0, 0, 1, 2, <<>>)>>)>>)

-----------------------------------------------------------------------------
(* C04: collecting from sources that are too short, exact, too long, and that misstate their size *)
Hints(n, k) == {<<k, k>>, <<0, -9>>, <<n, n>>, <<0, 0>>, <<-1, -9>>, <<n + 1, n + 1>>, <<k, -9>>}
CollectV == DSeq(VLens, LAMBDA n : DSeq({k \in {0, 1, n - 2, n - 1, n, n + 1, n + 2, 2 * n, 40} \cup (IF n <= 6 \/ Deep THEN 0..(n + 3) ELSE {}) : k >= 0}, LAMBDA k :
      DSeq({0, 1}, LAMBDA f : DSeq(IF n <= 4 \/ Deep THEN Hints(n, k) ELSE {<<k, k>>, <<n, n>>, <<0, -9>>}, LAMBDA hnt :
        DSeq({0, 2}, LAMBDA again : <<SymH(<<Op("vcolx", f, 1, 0, 0, <<n, k, hnt[1], hnt[2], again>>)>>)>>)))))

-----------------------------------------------------------------------------
(* one instance of every operation per shape (ownership, faults) *)
EachV(n, sm) ==
  LET a1 == MkV(1, n, 0)  a2 == MkV(2, n, 100)
      g1 == MkVv(1, [i \in 1..n |-> (i * 3) % 7])  g2 == MkVv(2, [i \in 1..n |-> (i * 5 + 1) % 7]) IN
  IF sm THEN
    [i \in 1..Len(EwOps(a1, a2, "v", FALSE)) |-> EwOps(a1, a2, "v", FALSE)[i]]
    \o << <<Op("vgen", 0, 1, 0, 0, <<n>> \o Base(n, 0))>>, <<Op("vcol", 0, 1, 0, 0, <<n>> \o Base(n, 0))>>, <<Op("vdef", 0, 1, 0, 0, <<n>>)>>,
          <<Op("vzero", 0, 1, 0, 0, <<n>>)>>, <<Op("vmin", 0, 1, 0, 0, <<n>>)>>, <<Op("vmax", 0, 1, 0, 0, <<n>>)>>,
          <<a1, Op("vclone", 0, 2, 1, 0, <<>>)>>, <<a1, Op("vinner", 0, 2, 1, 0, <<>>)>>, <<a1, Op("vdrop", 0, 0, 1, 0, <<>>)>>,
          <<a1, Op("vclone", 0, 1, 1, 0, <<>>)>>,
          <<a1, a2, Op("vdot", 0, 0, 1, 2, <<>>)>>, <<a1, Op("vsum", 0, 0, 1, 0, <<>>)>>, <<a1, Op("viszero", 0, 0, 1, 0, <<>>)>>,
          <<a1, a2, Op("veq", 0, 0, 1, 2, <<>>)>>,
          <<Op("vcolx", 0, 1, 0, 0, <<n, n, n, n, 0>>)>>, <<Op("vcolx", 0, 1, 0, 0, <<n, n + 1, 0, -9, 0>>)>> >>
    \o (IF n > 0 THEN << <<a1, Op("vset", 0, 0, 1, 0, <<n - 1, 99>>)>>, <<a1, Op("vset", 5, 0, 1, 0, <<0, 99>>)>>, <<Op("vcolx", 0, 1, 0, 0, <<n, n - 1, n, n, 0>>)>>,
                         <<Op("vcolx", 1, 1, 0, 0, <<n, n \div 2, n, n, 0>>)>> >> ELSE <<>>)
    \o (IF n = 3 THEN << <<a1, a2, Op("vcross", 0, 3, 1, 2, <<>>)>> >> ELSE <<>>)
  ELSE
    << <<g1, Op("vclamp", 0, 0, 1, 0, <<2, 4>>)>>, <<g1, Op("vclamped", 0, 2, 1, 0, <<2, 4>>)>>, <<g1, g2, Op("vdot", 0, 0, 1, 2, <<>>)>> >>
    \o (IF n \in XLens THEN [f \in 1..4 |-> <<g1, Op("vextreme", f - 1, 0, 1, 0, <<5, 1>>)>>] ELSE <<>>)
EachM(s, sm) ==
  LET k == s[1] * s[2]  n == s[1]
      a1 == MkM(1, s, 0)  a2 == MkM(2, s, 500)
      g1 == MkMv(1, s, [i \in 1..k |-> (i * i * 3 + 1) % 7])  g2 == MkMv(2, s, [i \in 1..k |-> (i * 5 + 1) % 7])
      v2 == Op("vgen", 0, 2, 0, 0, <<s[2]>> \o Base(s[2], 500)) IN
  IF sm THEN
    [i \in 1..Len(EwOps(a1, a2, "m", TRUE)) |-> EwOps(a1, a2, "m", TRUE)[i]]
    \o << <<a1>>, <<Op("mnew", 0, 1, 0, 0, s \o Base(k, 0))>>, <<Op("mdiag", 0, 1, 0, 0, s \o Base(IF s[1] < s[2] THEN s[1] ELSE s[2], 0))>>,
          <<Op("mdef", 0, 1, 0, 0, s)>>, <<Op("mzero", 0, 1, 0, 0, s)>>, <<Op("mmin", 0, 1, 0, 0, s)>>, <<Op("mmax", 0, 1, 0, 0, s)>>,
          <<a1, Op("mclone", 0, 2, 1, 0, <<>>)>>, <<a1, Op("mdrop", 0, 0, 1, 0, <<>>)>>, <<a1, Op("mclone", 0, 1, 1, 0, <<>>)>>,
          <<a1, Op("mtransposed", 0, 2, 1, 0, <<>>)>>, <<a1, Op("mmap", 0, 2, 1, 0, <<>>)>>, <<a1, a2, Op("mconj", 0, 3, 1, 2, <<>>)>>,
          <<a1, Op("mall", 0, 0, 1, 0, PosList(AllPos(s)))>>, <<a1, Op("many", 0, 0, 1, 0, <<>>)>>,
          <<a1, Op("msum", 0, 0, 1, 0, <<>>)>>, <<a1, Op("miszero", 0, 0, 1, 0, <<>>)>>, <<a1, a2, Op("meq", 0, 0, 1, 2, <<>>)>>,
          <<a1, v2, Op("mv", 0, 3, 1, 2, <<>>)>>, <<a1, v2, Op("mv", 2, 3, 1, 2, <<>>)>>, <<a1, Op("mread", 4, 0, 1, 0, <<>>)>>, <<a1, Op("mread", 5, 0, 1, 0, <<>>)>> >>
    \o (IF s[1] = s[2] THEN << <<Op("mid", 0, 1, 0, 0, <<n>>)>>, <<Op("mone", 0, 1, 0, 0, <<n>>)>>, <<a1, Op("mtranspose", 0, 0, 1, 0, <<>>)>>,
                               <<a1, a2, Op("mma", 0, 0, 1, 2, <<>>)>>, <<a1, Op("mpow", 0, 2, 1, 0, <<2>>)>> >> ELSE <<>>)
    \o (IF s \in RShapes THEN << <<Op("vgen", 0, 1, 0, 0, <<k>> \o Base(k, 0)), Op("mfrom", 0, 2, 1, 0, s)>> >> ELSE <<>>)
  ELSE
    << <<g1, Op("mclamp", 0, 0, 1, 0, <<2, 4>>)>>, <<g1, Op("mclamped", 0, 2, 1, 0, <<2, 4>>)>> >>
    \o (IF s[1] = s[2] /\ n \in 1..8 THEN [f \in 1..4 |-> <<g1, Op("mextreme", f - 1, 0, 1, 0, <<5, 1>>)>>] ELSE <<>>)
EachP(x) == LET s == <<x[1], x[2]>> t == <<x[2], x[3]>> IN
  [f \in 1..4 |-> <<MkM(1, s, 0), MkM(2, t, 500), Op("mm", f - 1, 3, 1, 2, <<>>)>>]
EachL(n) == LET s == <<n, n>>
                g(c) == MkMv(1, s, [i \in 1..(n * n) |-> (i * i * 3 + i * c + 1) % 101])
                perm == MkMv(1, s, [i \in 1..(n * n) |-> IF ((i - 1) % n) = (((i - 1) \div n) + 1) % n THEN 1 + (i % 5) ELSE 0])
            IN
  << <<g(2), Op("mdet", 0, 0, 1, 0, <<>>)>>, <<g(2), Op("minv", 0, 2, 1, 0, <<>>)>>, <<perm, Op("mdet", 0, 0, 1, 0, <<>>)>>, <<perm, Op("minv", 0, 2, 1, 0, <<>>)>>,
     <<MkMv(1, s, Const(n * n, 1)), Op("minv", 0, 2, 1, 0, <<>>)>>, <<MkMv(1, s, Const(n * n, 1)), Op("mdet", 0, 0, 1, 0, <<>>)>> >>
  \o (IF n > 1 THEN << <<g(3), Op("mcof", 0, 0, 1, 0, <<n - 1, 0>>)>> >> ELSE <<>>)

VFew == IF Deep THEN VLens ELSE {0, 1, 2, 3, 4, 7, 16, 32}
MFew == IF Deep THEN MShapes ELSE {<<0, 0>>, <<0, 2>>, <<2, 0>>, <<1, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<1, 4>>, <<4, 1>>, <<4, 4>>, <<3, 17>>}
PFew == IF Deep THEN PShapes ELSE {<<0, 0, 0>>, <<2, 0, 3>>, <<0, 3, 2>>, <<3, 2, 0>>, <<1, 1, 1>>, <<2, 3, 2>>, <<3, 2, 3>>, <<4, 3, 2>>, <<4, 4, 4>>, <<2, 16, 1>>}
LFew == 1..(IF Deep THEN 8 ELSE 6)
VTiny == IF Deep THEN {0, 1, 2, 3, 4, 5, 8, 17} ELSE {0, 1, 2, 3, 5}
MTiny == IF Deep THEN {<<0, 2>>, <<2, 0>>, <<1, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<1, 4>>, <<4, 1>>, <<3, 3>>, <<4, 4>>} ELSE {<<2, 0>>, <<1, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>}
PTiny == IF Deep THEN {<<1, 1, 1>>, <<2, 2, 2>>, <<2, 3, 2>>, <<3, 2, 1>>, <<3, 3, 3>>, <<2, 0, 3>>} ELSE {<<1, 1, 1>>, <<2, 2, 2>>, <<2, 3, 1>>, <<1, 2, 3>>}
LTiny == IF Deep THEN 1..5 ELSE 1..4
Ev(V, bin) == DSeq(V, LAMBDA n : Hs("sym", 7, EachV(n, TRUE)) \o Hs("gf", 7, EachV(n, FALSE)))
Em(M) == DSeq(M, LAMBDA s : Hs("sym", 7, EachM(s, TRUE)) \o Hs("gf", 7, EachM(s, FALSE)))
EachOf(V, M, PP, L) ==
  CASE Area = "v" -> Ev(V, 0) [] Area = "m" -> Em(M) [] Area = "p" -> DSeq(PP, LAMBDA x : Hs("sym", 7, EachP(x)))
    [] Area = "l" -> DSeq(L, LAMBDA n : Hs("gf", 101, EachL(n)))

-----------------------------------------------------------------------------
(* C12, C13: determinants, cofactors, inverses *)
LH(p, n, vals, ops) == H("gf", p, <<MkMv(1, <<n, n>>, vals)>> \o ops)
DetO == Op("mdet", 0, 0, 1, 0, <<>>)
InvO == Op("minv", 0, 2, 1, 0, <<>>)
CofO(i, j) == Op("mcof", 0, 0, 1, 0, <<i, j>>)
Flat(n, F(_, _)) == [k \in 1..(n * n) |-> F((k - 1) \div n, (k - 1) % n)]
MapSet(n, S) == {[k \in 1..n |-> f[k]] : f \in [1..n -> S]}
(* every matrix of a size over a small field *)
AllMats(n, p) == MapSet(n * n, 0..(p - 1))
RndMats(n, p, cnt) == [q \in 1..cnt |-> Rnd(n * n, p)]
Sparse(n, p) == TLCEval([k \in 1..(n * n) |-> IF RandomElement(1..3) = 1 THEN RandomElement(1..(p - 1)) ELSE 0])
PermSet(n) == {f \in [0..(n - 1) -> 0..(n - 1)] : \A i, j \in 0..(n - 1) : i # j => f[i] # f[j]}
RECURSIVE RndPermR(_)
RndPermR(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN TLCEval(<<x>> \o RndPermR(S \ {x}))
RndPerm(n) == LET q == TLCEval(RndPermR(0..(n - 1))) IN [i \in 0..(n - 1) |-> q[i + 1]]
PermMat(n, f, p) == Flat(n, LAMBDA i, j : IF f[i] = j THEN 1 + ((i * 7 + 2) % (p - 1)) ELSE 0)
(* a permuted upper triangular matrix: every pivot search has exactly one outcome *)
PermTri(n, f, p) == Flat(n, LAMBDA i, j : IF j = f[i] THEN 1 + ((i * 5 + 3) % (p - 1)) ELSE IF j > f[i] THEN (i * 11 + j * 17 + 4) % p ELSE 0)
(* row r replaced by a combination of the others: singular *)
Dep(n, v, r, p) == Flat(n, LAMBDA i, j : IF i # r THEN v[i * n + j + 1]
                       ELSE (2 * v[((r + 1) % n) * n + j + 1] + (IF n > 2 THEN 3 * v[((r + 2) % n) * n + j + 1] ELSE 0)) % p)
DepC(n, v, c, p) == Flat(n, LAMBDA i, j : IF j # c THEN v[i * n + j + 1]
                       ELSE (2 * v[i * n + ((c + 1) % n) + 1] + (IF n > 2 THEN 3 * v[i * n + ((c + 2) % n) + 1] ELSE 0)) % p)
ZeroRow(n, v, r) == Flat(n, LAMBDA i, j : IF i = r THEN 0 ELSE v[i * n + j + 1])
ZeroCol(n, v, c) == Flat(n, LAMBDA i, j : IF j = c THEN 0 ELSE v[i * n + j + 1])
(* leading k x k minor singular, matrix itself usually not: elimination meets a zero pivot at step k *)
ZeroLead(n, v, k) == Flat(n, LAMBDA i, j : IF i < k /\ j < k THEN (IF i = 0 THEN v[j + 1] ELSE (v[j + 1] * (i + 1)) % 101) ELSE v[i * n + j + 1])
LowPiv(n, v, k) == Flat(n, LAMBDA i, j : IF j = k /\ i >= k /\ i < n - 1 THEN 0 ELSE IF j < k /\ i > j THEN 0 ELSE v[i * n + j + 1])
Kinds(n, p, cnt) ==
     RndMats(n, p, cnt) \o [q \in 1..cnt |-> Sparse(n, p)]
  \o [q \in 1..(2 * n) |-> PermMat(n, RndPerm(n), p)] \o [q \in 1..(2 * n) |-> PermTri(n, RndPerm(n), p)]
  \o (IF n = 1 THEN <<>> ELSE [q \in 1..n |-> Dep(n, Rnd(n * n, p), q - 1, p)] \o [q \in 1..n |-> DepC(n, Rnd(n * n, p), q - 1, p)])
  \o [q \in 1..n |-> ZeroRow(n, Rnd(n * n, p), q - 1)] \o [q \in 1..n |-> ZeroCol(n, Rnd(n * n, p), q - 1)]
  \o [q \in 1..n |-> LowPiv(n, TLCEval([k \in 1..(n * n) |-> RandomElement(1..(p - 1))]), q - 1)]
  \o (IF p = 101 /\ n > 2 THEN [q \in 1..(n - 2) |-> ZeroLead(n, TLCEval([k \in 1..(n * n) |-> RandomElement(1..(p - 1))]), q + 1)] ELSE <<>>)

LinMats(cnt) ==   \* sequence of <<p, n, values>>
  LET tag(p, n, q) == [i \in 1..Len(q) |-> <<p, n, q[i]>>] IN
     tag(7, 1, SetToSeq(AllMats(1, 7))) \o tag(3, 2, SetToSeq(AllMats(2, 3))) \o tag(2, 3, SetToSeq(AllMats(3, 2)))
  \o tag(5, 4, SetToSeq({PermMat(4, f, 5) : f \in PermSet(4)})) \o tag(5, 4, SetToSeq({PermTri(4, f, 5) : f \in PermSet(4)}))
  \o tag(5, 5, SetToSeq({PermMat(5, f, 5) : f \in PermSet(5)}))
  \o FlattenSeq([n \in 1..8 |-> tag(101, n, Kinds(n, 101, cnt)) \o tag(10007, n, Kinds(n, 10007, cnt)) \o tag(3, n, Kinds(n, 3, 2 * cnt))])
  \o tag(2, 4, RndMats(4, 2, 20 * cnt)) \o tag(3, 3, RndMats(3, 3, 10 * cnt))
(* exact fractions, starting from small integers of both signs; |det| < p by Hadamard's bound, so that a
   determinant is zero exactly when its residue is, and no denominator (a product of minors) vanishes mod p *)
RatP == 46337
RatMax(n) == IF n <= 3 THEN 5 ELSE IF n <= 5 THEN 2 ELSE 1
RatVals(n, zeros) == LET b == RatMax(n) IN TLCEval([k \in 1..(n * n) |-> IF zeros > 0 /\ RandomElement(1..10) <= zeros THEN 0 ELSE RandomElement(-b..b)])
RatTri(n, f) == LET b == RatMax(n) v == RatVals(n, 0) IN Flat(n, LAMBDA i, j : IF j = f[i] THEN (IF (i + v[i * n + j + 1]) % 2 = 0 THEN -b ELSE b) ELSE IF j > f[i] THEN v[i * n + j + 1] ELSE 0)
RatDep(n, v, r, c) == Flat(n, LAMBDA i, j : IF i # r THEN v[i * n + j + 1] ELSE c * v[((r + 1) % n) * n + j + 1])
RatMats(cnt) == FlattenSeq([n \in 1..8 |->
     [q \in 1..cnt |-> <<n, RatVals(n, 0)>>] \o [q \in 1..cnt |-> <<n, RatVals(n, 4)>>] \o [q \in 1..cnt |-> <<n, RatVals(n, 7)>>]
     \o [q \in 1..(2 * n) |-> <<n, RatTri(n, RndPerm(n))>>]
     \o [q \in 1..n |-> <<n, RatTri(n, [i \in 0..(n - 1) |-> i])>>]
     \o (IF n = 1 THEN <<>> ELSE [q \in 1..n |-> <<n, RatDep(n, RatVals(n, 0), q - 1, IF q % 2 = 0 THEN 1 ELSE -1)>>])])
RatLH(n, v, ops) == H("rat", RatP, <<MkMv(1, <<n, n>>, v)>> \o ops)
RatDet == LET q == TLCEval(RatMats(IF Deep THEN 150 ELSE 20)) IN
     [i \in 1..Len(q) |-> LET n == q[i][1] IN RatLH(n, q[i][2], <<DetO>> \o (IF n > 1 THEN <<CofO((i * 3) % n, (i \div 5) % n)>> ELSE <<>>))]
RatInv == LET q == TLCEval(RatMats(IF Deep THEN 150 ELSE 20)) IN [i \in 1..Len(q) |-> RatLH(q[i][1], q[i][2], <<InvO>>)]
DetL == LET q == TLCEval(LinMats(IF Deep THEN 60 ELSE 8)) IN
     [i \in 1..Len(q) |-> LET n == q[i][2] IN
         LH(q[i][1], n, q[i][3], <<DetO>> \o (IF n > 1 THEN <<CofO((i * 3) % n, (i \div 5) % n)>> ELSE <<>>))]
  \o FlattenSeq([m \in 1..(IF Deep THEN 7 ELSE 5) |-> LET n == m + 1 IN
        FlattenSeq([c \in 1..3 |-> LET v == TLCEval(IF c = 1 THEN Rnd(n * n, 101) ELSE IF c = 2 THEN Sparse(n, 101) ELSE PermMat(n, RndPerm(n), 101))
                                        pos == SetToSeq((0..(n - 1)) \X (0..(n - 1))) IN
           [k \in 1..Len(pos) |-> LH(101, n, v, <<CofO(pos[k][1], pos[k][2])>>)]])])
  \o FlattenSeq([m \in 1..7 |-> LET n == m + 1
                                    out == SetToSeq(({n, n + 1, -1} \X {0, n - 1, n, -1}) \cup ({0, n - 1} \X {n, n + 1, -1})) IN
        [k \in 1..Len(out) |-> LH(101, n, Rnd(n * n, 101), <<CofO(out[k][1], out[k][2])>>)]])
InvL == LET q == TLCEval(LinMats(IF Deep THEN 60 ELSE 10)) IN [i \in 1..Len(q) |-> LH(q[i][1], q[i][2], q[i][3], <<InvO>>)]
AllL == IF Deep THEN [i \in 1..65536 |-> LH(2, 4, [k \in 1..16 |-> ((i - 1) \div (2 ^ (k - 1))) % 2], <<InvO, DetO>>)] ELSE <<>>

-----------------------------------------------------------------------------
(* large shapes: areas "b" (every family) and "L" (linear algebra) *)
Few(p) == TLCEval(RandomElement(0..(p - 1)))
Spots(s) == LET r == s[1] c == s[2] IN
   {<<0, 0>>, <<r - 1, c - 1>>, <<0, c - 1>>, <<r - 1, 0>>, <<r \div 2, c \div 2>>, <<8, 8>>, <<7, c - 2>>, <<r - 2, 8>>}
   \cup (IF r > 16 THEN {<<16, 8>>, <<16, c - 1>>, <<15, 1>>} ELSE {}) \cup (IF c > 16 THEN {<<8, 16>>, <<r - 1, 16>>, <<1, 15>>} ELSE {})
BCtor == DSeq(BShapes, LAMBDA s : LET k == s[1] * s[2]  w == IF s[1] < s[2] THEN s[1] ELSE s[2]  n == s[1] IN
     <<SymH(<<Op("mnew", 0, 1, 0, 0, s \o Base(k, 0)), Op("mgen", 0, 2, 0, 0, s \o Base(k, 0)), Op("meq", 0, 0, 1, 2, <<>>), Op("mdim", 0, 0, 1, 0, <<>>)>>),
       SymH(<<Op("mdiag", 0, 1, 0, 0, s \o Base(w, 0)), Op("mzero", 0, 2, 0, 0, s), Op("miszero", 0, 0, 2, 0, <<>>), Op("mdef", 0, 3, 0, 0, s)>>),
       SymH(<<Op("mmin", 0, 1, 0, 0, s), Op("mmax", 0, 2, 0, 0, s)>>)>>
     \o (IF s[1] = s[2] THEN <<SymH(<<Op("mid", 0, 1, 0, 0, <<n>>), Op("mone", 0, 2, 0, 0, <<n>>), Op("meq", 0, 0, 1, 2, <<>>)>>)>> ELSE <<>>)
     \o DSeq(Spots(s), LAMBDA x : <<H("gf", 11, <<MkMv(1, s, OneHot(k, x[1] * s[2] + x[2] + 1, 5)), Op("miszero", 0, 0, 1, 0, <<>>)>>)>>))
BAccess == DSeq(BShapes, LAMBDA s :
     <<SymH(<<MkM(1, s, 0)>> \o ReadAllM(1))>>
     \o DSeq(Spots(s), LAMBDA x : DSeq({0, 1}, LAMBDA f : <<SymH(<<MkM(1, s, 0), Op("mget", f, 0, 1, 0, x), Op("mset", f, 0, 1, 0, x \o <<9999>>), ReadAllM(1)[((x[1] + x[2]) % 7) + 1]>>)>>))
     \o DSeq({<<s[1], 0>>, <<0, s[2]>>, <<s[1] - 1, s[2]>>, <<s[1], s[2] - 1>>, <<-1, 0>>, <<0, -1>>}, LAMBDA x : <<SymH(<<MkM(1, s, 0), Op("mget", 0, 0, 1, 0, x), Op("mset", 0, 0, 1, 0, x \o <<9999>>)>>)>>)
     \o DSeq({0, 8, s[2] - 1, s[2], -1}, LAMBDA j : <<SymH(<<MkM(1, s, 0), Op("mcolin", 0, 0, 1, 0, <<j>>)>>)>>))
BArith == DSeq(BShapes, LAMBDA s : Hs("sym", 7, EwOps(MkM(1, s, 0), MkM(2, s, 2000), "m", TRUE))
                                 \o Hs("int", 0, EwOpsS(MkMv(1, s, Ints(s[1] * s[2])), MkMv(2, s, Ints(s[1] * s[2])), "m", TRUE, 4)))
BProds == DSeq(BProd, LAMBDA x : LET s == <<x[1], x[2]>> t == <<x[2], x[3]>> ks == x[1] * x[2] kt == x[2] * x[3] IN
       [f \in 1..4 |-> H("gf", 10007, <<MkMv(1, s, Rnd(ks, 10007)), MkMv(2, t, Rnd(kt, 10007)), Op("mm", f - 1, 3, 1, 2, <<>>)>>)])
   \o DSeq({<<9, 9, 9>>}, LAMBDA x : <<SymH(<<MkM(1, <<x[1], x[2]>>, 0), MkM(2, <<x[2], x[3]>>, 500), Op("mm", 3, 3, 1, 2, <<>>)>>)>>)
   \o DSeq(BShapes, LAMBDA s : DSeq({0, 2}, LAMBDA f : <<SymH(<<MkM(1, s, 0), Op("vgen", 0, 2, 0, 0, <<s[2]>> \o Base(s[2], 2000)), Op("mv", f, 3, 1, 2, <<>>)>>)>>))
   \o DSeq(BSq, LAMBDA n : LET s == <<n, n>> IN
        <<H("gf", 10007, <<MkMv(1, s, Rnd(n * n, 10007)), MkMv(2, s, Rnd(n * n, 10007)), Op("mma", 0, 0, 1, 2, <<>>)>>)>>
        \o DSeq({0, 1, 2, 5} \cup (IF n < 16 THEN {11, 64} ELSE {}), LAMBDA e : <<H("gf", 10007, <<MkMv(1, s, Rnd(n * n, 10007)), Op("mpow", 0, 2, 1, 0, <<e>>)>>)>>))
BMap == DSeq(BShapes, LAMBDA s : LET k == s[1] * s[2]  A == AllPos(s) IN
     <<SymH(<<MkM(1, s, 0), Op("mtransposed", 0, 2, 1, 0, <<>>)>> \o (IF <<s[2], s[1]>> \in BShapes THEN <<Op("mtransposed", 0, 3, 2, 0, <<>>)>> ELSE <<>>)),
       SymH(<<MkM(1, s, 0), Op("mmap", 0, 2, 1, 0, <<>>)>>),
       SymH(<<MkM(1, s, 0), MkM(2, s, 2000), Op("mconj", 0, 3, 1, 2, <<>>)>>)>>
     \o (IF s[1] # s[2] THEN <<>> ELSE <<SymH(<<MkM(1, s, 0), Op("mtranspose", 0, 0, 1, 0, <<>>)>>)>>)
     \o (IF s[1] * s[2] > 400 THEN <<>> ELSE DSeq(Spots(s), LAMBDA x : <<SymH(<<MkM(1, s, 0), Op("mall", 0, 0, 1, 0, PosList(A \ {x})), Op("many", 0, 0, 1, 0, x)>>)>>)))
BSums == DSeq(BShapes, LAMBDA s : LET k == s[1] * s[2] IN
       (IF k <= 160 THEN <<SymH(<<MkM(1, s, 0), Op("msum", 0, 0, 1, 0, <<>>)>>)>> ELSE <<>>)
       \o [i \in 1..3 |-> H("gf", 10007, <<MkMv(1, s, Rnd(k, 10007)), Op("msum", 0, 0, 1, 0, <<>>)>>)]
       \o <<H("gf", 7, <<MkMv(1, s, Rnd(k, 7)), Op("mclamped", 0, 2, 1, 0, <<2, 4>>), Op("mclamp", 0, 0, 1, 0, <<2, 4>>), Op("meq", 0, 0, 1, 2, <<>>)>>)>>)
  \o DSeq(BSq, LAMBDA n : LET s == <<n, n>> IN DSeq(Spots(s), LAMBDA x : LET i == x[1] * n + x[2] + 1 IN
       <<H("gf", 101, <<MkMv(1, s, [k \in 1..(n * n) |-> IF k = i THEN 90 ELSE 20 + ((k * 7) % 50)])>> \o ExtOps("m", 1)),
         H("gf", 101, <<MkMv(1, s, [k \in 1..(n * n) |-> IF k = i THEN 3 ELSE 20 + ((k * 7) % 50)])>> \o ExtOps("m", 1))>>))
BEq == DSeq(BShapes, LAMBDA s :
      <<SymH(<<MkM(1, s, 0), MkM(2, s, 0), Op("meq", 0, 0, 1, 2, <<>>), Op("mclone", 0, 3, 1, 0, <<>>), Op("meq", 0, 0, 3, 1, <<>>)>>)>>
      \o DSeq(Spots(s), LAMBDA x : <<SymH(<<MkM(1, s, 0), MkM(2, s, 0), Op("mset", 0, 0, 2, 0, x \o <<9999>>), Op("meq", 0, 0, 1, 2, <<>>), Op("meq", 0, 0, 2, 1, <<>>)>>)>>))
BEach == DSeq(IF Deep THEN BShapes ELSE {<<9, 10>>, <<17, 17>>, <<11, 31>>}, LAMBDA s : LET a1 == MkM(1, s, 0)  a2 == MkM(2, s, 2000) IN
      Hs("sym", 7, << <<a1, a2, Op("madd", 0, 3, 1, 2, <<>>)>>, <<a1, a2, Op("msub", 1, 3, 1, 2, <<>>)>>, <<a1, Op("mtransposed", 0, 2, 1, 0, <<>>)>>,
                      <<a1, Op("mmap", 0, 2, 1, 0, <<>>)>>, <<a1, a2, Op("mconj", 0, 3, 1, 2, <<>>)>>, <<a1, Op("mclone", 0, 1, 1, 0, <<>>)>>, <<a1, Op("mneg", 0, 1, 1, 0, <<>>)>>,
                      <<a1, a2, Op("madda", 0, 0, 1, 2, <<>>)>>, <<a1, Op("mmuls", 1, 2, 1, 0, <<601>>)>>, <<a1, Op("mread", 5, 0, 1, 0, <<>>)>> >>)
      \o (IF s[1] = s[2] THEN Hs("gf", 101, << <<a1, Op("mtranspose", 0, 0, 1, 0, <<>>)>>, <<a1, a2, Op("mma", 0, 0, 1, 2, <<>>)>> >>) ELSE <<>>))

(* no zero pivots on the way (their fallback takes factorial time) except in the last place; or one at the start, for size 9 *)
RECURSIVE Pivots(_, _, _)
Pivots(A, k, q) ==
  LET n == Len(A) IN
  IF k >= n THEN TRUE ELSE IF A[k][k] = 0 THEN FALSE
  ELSE Pivots(TLCEval([r \in 1..n |-> IF r <= k THEN A[r] ELSE TLCEval([c \in 1..n |-> IF c < k THEN 0 ELSE (A[k][k] * A[r][c] + (q - A[r][k]) * A[k][c]) % q])]), k + 1, q)
SubOf(n, v, i, j) == TLCEval([a \in 1..(n - 1) |-> [b \in 1..(n - 1) |-> v[(IF a <= i THEN a - 1 ELSE a) * n + (IF b <= j THEN b ELSE b + 1)]]])
Smooth(n, v, ops) == \A k \in 1..Len(ops) :
   IF ops[k][1] = "mcof" THEN Pivots(SubOf(n, v, ops[k][6][1], ops[k][6][2]), 1, 10007)
   ELSE IF ops[k][1] = "mdet" THEN Pivots(TLCEval([a \in 1..n |-> [b \in 1..n |-> v[(a - 1) * n + b]]]), 1, 10007)
   ELSE TRUE
SH(n, v0, ops0) == LET v == TLCEval(v0)  ops == TLCEval(ops0) IN IF Smooth(n, v, ops) THEN <<LH(10007, n, v, ops)>> ELSE <<>>
BLin(ops(_), cnt) == DSeq(LSq, LAMBDA n : LET s == <<n, n>> IN FlattenSeq([q \in 1..cnt |->
      LET v == Rnd(n * n, 10007)
          \* upper triangular, lower triangular, all but one row dependent, dense
          up == Flat(n, LAMBDA i, j : IF j < i THEN 0 ELSE 1 + (v[i * n + j + 1] % 10006))
          lo == Flat(n, LAMBDA i, j : IF j > i THEN 0 ELSE 1 + (v[i * n + j + 1] % 10006))
          z0 == [v EXCEPT ![1] = 0] IN
      SH(n, v, ops(n)) \o SH(n, up, ops(n)) \o SH(n, lo, ops(n)) \o SH(n, Dep(n, v, n - 1, 10007), ops(n)) \o SH(n, DepC(n, v, n - 1, 10007), ops(n))
      \o (IF n <= 9 THEN <<LH(10007, n, z0, ops(n))>> ELSE <<>>)]))
BDet == BLin(LAMBDA n : <<DetO, CofO(n - 1, n - 1)>>, IF Deep THEN 20 ELSE 2)
   \o DSeq(LSq, LAMBDA n : FlattenSeq([q \in 1..(IF Deep THEN 20 ELSE 3) |->
        SH(n, Rnd(n * n, 10007), <<CofO(0, 0), CofO(n - 1, n - 2), CofO(0, n - 1), CofO(RandomElement(0..(n - 1)), RandomElement(0..(n - 1)))>>)]))
BInv == BLin(LAMBDA n : <<InvO>>, IF Deep THEN 20 ELSE 2)
   \o DSeq(LSq, LAMBDA n : <<LH(101, n, PermMat(n, RndPerm(n), 101), <<InvO>>), LH(101, n, PermTri(n, RndPerm(n), 101), <<InvO>>),
                             LH(101, n, ZeroRow(n, Rnd(n * n, 101), n \div 2), <<InvO>>), LH(10007, n, LowPiv(n, TLCEval([k \in 1..(n * n) |-> RandomElement(1..10006)]), n \div 2), <<InvO>>)>>)

-----------------------------------------------------------------------------
Histories ==
  IF Area = "b" THEN
  CASE Family = "ctor" -> BCtor [] Family = "access" -> BAccess [] Family = "arith" -> BArith [] Family = "prod" -> BProds
    [] Family = "map" -> BMap [] Family = "sums" -> BSums [] Family = "eq" -> BEq [] Family = "each" -> BEach
  ELSE IF Area = "L" THEN (IF Family = "det" THEN BDet ELSE BInv)
  ELSE
  CASE Family = "ctor"   -> (IF Area = "v" THEN CtorV ELSE CtorM)
    [] Family = "access" -> (IF Area = "v" THEN AccessV ELSE AccessM)
    [] Family = "writes" -> (IF Area = "v" THEN WritesV(IF Deep THEN 3000 ELSE 400) ELSE WritesM(IF Deep THEN 3000 ELSE 400))
    [] Family = "arith"  -> (IF Area = "v" THEN ArithV ELSE ArithM)
    [] Family = "prod"   -> (IF Area = "v" THEN ProdV ELSE IF Area = "m" THEN ProdM ELSE ProdP)
    [] Family = "det"    -> DetL
    [] Family = "inv"    -> InvL
    [] Family = "ratdet" -> RatDet
    [] Family = "ratinv" -> RatInv
    [] Family = "all4"   -> AllL
    [] Family = "map"    -> MapM
    [] Family = "sums"   -> (IF Area = "v" THEN SumV ELSE SumM)
    [] Family = "eq"     -> (IF Area = "v" THEN EqV ELSE EqM)
    [] Family = "collect" -> CollectV
    [] Family = "each"   -> EachOf(VFew, MFew, PFew, LFew)
    [] Family = "faults" -> EachOf(VTiny, MTiny, PTiny, LTiny)
ASSUME ndJsonSerialize(IOEnv.OUT, Histories)
=============================================================================
