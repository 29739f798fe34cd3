------------------------------ MODULE FactGen ------------------------------
(* Generates requests to the harness for FactTrace. A request is <<words (strings and numbers), numbers>>. *)
EXTENDS Render, Norm, Approx, Shapes, Floats, Json, IOUtils, Dims

Deep == IOEnv.DEEP = "1"
Family == IOEnv.FAMILY
DSeq(S, F(_)) == LET q == SetToSeq(S) IN FlattenSeq([i \in 1..Len(q) |-> F(q[i])])
Q(w, n) == [w |-> w, n |-> n]

-----------------------------------------------------------------------------
(* C16 *)
Cells0 == {<<97>>, <<98, 98>>, <<99, 99, 99>>, <<233>>, <<28450>>, <<97, 769>>, <<97, 10, 98, 98>>, <<97, 97, 97, 10, 98>>}
Cells1 == Cells0 \cup {<<120, 10, 10, 121>>, <<100, 10>>, <<10>>, <<28450, 10, 97>>, <<101, 769, 102, 10, 28450, 12354, 10, 49>>, <<119, 119, 119, 119, 119, 119>>,
                       <<32>>, <<97, 10, 98, 10, 99, 10, 100>>, <<65288, 120>>}
Pack(cells) == FlattenSeq([k \in 1..Len(cells) |-> <<Len(cells[k])>> \o cells[k]])
Disp(r, c, cells) == Q(<<"mdisplay", r, c>>, Pack(cells))
RCells(n, S) == TLCEval([k \in 1..n |-> RandomElement(S)])
Numbered(n) == [k \in 1..n |-> Digits(k)]
Ascending(n) == [k \in 1..n |-> [q \in 1..(1 + ((k * 5) % 7)) |-> 97 + (k % 26)]]
AllCells(n, S) == {[k \in 1..n |-> f[k]] : f \in [1..n -> S]}
DShapes == {s \in MShapes : s[1] * s[2] <= 64}
RenderReqs ==
     DSeq(DShapes, LAMBDA s : LET n == s[1] * s[2] IN
        <<Disp(s[1], s[2], Numbered(n)), Disp(s[1], s[2], Ascending(n))>>
        \o [i \in 1..(IF n > 16 THEN 2 ELSE IF Deep THEN 60 ELSE 12) |-> Disp(s[1], s[2], RCells(n, Cells1))]
        \o [i \in 1..3 |-> Disp(s[1], s[2], RCells(n, Cells0 \cup {<<>>}))])
  \o DSeq(Cells1, LAMBDA x : <<Disp(1, 1, <<x>>)>>)
  \o DSeq(AllCells(2, Cells1), LAMBDA q : <<Disp(1, 2, q), Disp(2, 1, q)>>)
  \o (IF Deep THEN DSeq(AllCells(4, Cells0), LAMBDA q : <<Disp(2, 2, q)>>) \o DSeq(AllCells(3, Cells0), LAMBDA q : <<Disp(3, 1, q), Disp(1, 3, q)>>)
      ELSE DSeq(AllCells(4, {<<97>>, <<98, 98, 98>>, <<28450>>, <<97, 10, 98, 98>>}), LAMBDA q : <<Disp(2, 2, q)>>))
  \o DSeq(MShapes, LAMBDA s : LET v == [k \in 1..(s[1] * s[2]) |-> (k * 37) % 1009] IN <<Q(<<"mdebug", s[1], s[2]>>, v), Q(<<"mdebuga", s[1], s[2]>>, v)>>)
  \o DSeq(VLens, LAMBDA n : LET v == [k \in 1..n |-> (k * 41) % 1013] IN <<Q(<<"vdebug", n, 0>>, v), Q(<<"vdebuga", n, 0>>, v)>>)

-----------------------------------------------------------------------------
(* C15: approximate equality *)
Wave(n) == [k \in 1..n |-> 10 * k]
Off(n, i, d) == [k \in 1..n |-> IF k = i THEN 10 * k + d ELSE 10 * k]
AShapes == MShapes
Spots(n) == IF Deep \/ n <= 12 THEN 1..n ELSE {1, 2, n \div 2, n - 1, n}
Cmp(op, mode, s, x, y, eps, tol) == Q(<<op, mode, s[1], s[2], eps, tol>>, x \o y)
Modes == 0..3
ApproxReqs ==
     DSeq(AShapes, LAMBDA s : LET n == s[1] * s[2] IN
          <<Q(<<"defaults", 0, s[1], s[2], 0, 0>>, Wave(n) \o Wave(n))>>
       \o DSeq({"relative", "ulps"}, LAMBDA op : DSeq(Modes \cup {7}, LAMBDA m :
            <<Cmp(op, m, s, Wave(n), Wave(n), 1, 1), Cmp(op, m, s, Wave(n), Wave(n), 0, 0)>>
            \o DSeq(Spots(n), LAMBDA i : <<Cmp(op, m, s, Wave(n), Off(n, i, 3), 1, 0), Cmp(op, m, s, Wave(n), Off(n, i, 3), 4, 0),
                                           Cmp(op, m, s, Wave(n), Off(n, i, 21), 0, 6), Cmp(op, m, s, Off(n, i, NaN - 10 * i), Wave(n), 3, 3)>>))))
  \o [i \in 1..(IF Deep THEN 20000 ELSE 1500) |-> LET v == TLCEval([k \in 1..4 |-> RandomElement((-6)..30)]) w == TLCEval([k \in 1..4 |-> v[k] + RandomElement({-9, -3, -1, 0, 0, 0, 1, 2, 5})]) IN
       Cmp(RandomElement({"relative", "ulps"}), RandomElement(Modes \cup {7}), RandomElement({<<2, 2>>, <<1, 4>>, <<4, 1>>}), v, w, RandomElement(0..5), RandomElement(0..5))]
(* exact equality with an element that is unequal to itself, between different element types, of a container with itself *)
EqReq(k, how, s, x, y) == Q(<<"aeq", how, s[1], s[2], k, 0>>, x \o y)
EqReqs ==
     DSeq(VLens, LAMBDA n : DSeq({0, 1, 2}, LAMBDA how : <<EqReq(1, how, <<n, 1>>, Wave(n), Wave(n))>>
          \o DSeq(1..n, LAMBDA i : <<EqReq(1, how, <<n, 1>>, Off(n, i, NaN - 10 * i), Off(n, i, NaN - 10 * i))>>
                                   \o (IF how = 1 THEN <<>> ELSE <<EqReq(1, how, <<n, 1>>, Wave(n), Off(n, i, 1)), EqReq(1, how, <<n, 1>>, Off(n, i, -1), Wave(n))>>))))
  \o DSeq(MShapes, LAMBDA s : LET n == s[1] * s[2] IN DSeq({0, 1}, LAMBDA how : <<EqReq(2, how, s, Wave(n), Wave(n))>>
          \o DSeq(Spots(n), LAMBDA i : <<EqReq(2, how, s, Off(n, i, NaN - 10 * i), Off(n, i, NaN - 10 * i))>>
                                       \o (IF how = 1 THEN <<>> ELSE <<EqReq(2, how, s, Wave(n), Off(n, i, 1)), EqReq(2, how, s, Off(n, i, -1), Wave(n))>>))))

-----------------------------------------------------------------------------
(* C18 *)
LayoutReqs == DSeq(VLens, LAMBDA n : [i \in 1..6 |-> Q(<<"size", 1, n, 0, i>>, <<>>)] \o <<Q(<<"alloc", 1, n, 0, 0>>, <<>>)>>)
           \o DSeq(MShapes, LAMBDA s : [i \in 1..6 |-> Q(<<"size", 2, s[1], s[2], i>>, <<>>)] \o <<Q(<<"alloc", 2, s[1], s[2], 0>>, <<>>)>>)
           \o DSeq(PShapes, LAMBDA x : <<Q(<<"alloc", 3, x[1], x[2], x[3]>>, <<>>)>>)
           \o DSeq(SqDims, LAMBDA n : <<Q(<<"alloc", 4, n, n, 0>>, <<>>)>>)
           \o DSeq(CShapes, LAMBDA s : <<Q(<<"alloc", 5, s[1], s[2], 0>>, <<>>)>>)
           \o DSeq(VLens, LAMBDA n : <<Q(<<"alloc", 6, n, 0, 0>>, <<>>)>>) \o DSeq({<<1, 1>>, <<2, 3>>, <<3, 2>>, <<4, 4>>, <<8, 8>>, <<16, 2>>, <<10, 12>>}, LAMBDA s : <<Q(<<"alloc", 7, s[1], s[2], 0>>, <<>>)>>)
           \o DSeq({<<12, 12>>, <<32, 32>>, <<31, 11>>}, LAMBDA s : <<Q(<<"alloc", 8, s[1], s[2], 0>>, <<>>)>>) \o DSeq({<<32, 32, 32>>, <<17, 32, 17>>}, LAMBDA x : <<Q(<<"alloc", 9, x[1], x[2], x[3]>>, <<>>)>>)
           \o DSeq({9, 12, 16}, LAMBDA n : <<Q(<<"alloc", 10, n, n, 0>>, <<>>)>>)

-----------------------------------------------------------------------------
(* C20: vectors with known norms, at every length and position *)
AtPos(n, i, x) == [k \in 1..n |-> IF k = i THEN x ELSE 0]
Two(n, i, j, x, y) == [k \in 1..n |-> IF k = i THEN x ELSE IF k = j THEN y ELSE 0]
Scales == {0, 1, -1, 20, -20, 50, -50}
NR(b, sc, v) == <<Q(<<"norm", b, Len(v), sc>>, v)>> \o (IF Integral(v) /\ Root(v) > 0 THEN <<Q(<<"unit", b, Len(v), sc>>, v)>> ELSE <<>>)
NormReqs ==
  DSeq({32, 64}, LAMBDA b :
     DSeq(VLens, LAMBDA n :
          NR(b, 0, [k \in 1..n |-> 0])
       \o DSeq(1..n, LAMBDA i : NR(b, 0, AtPos(n, i, 7)) \o NR(b, 1, AtPos(n, i, -5)) \o (IF i < n THEN NR(b, 0, Two(n, i, i + 1, 3, 4)) \o NR(b, -1, Two(n, i, n, -5, 12)) ELSE <<>>))
       \o DSeq({k \in 1..5 : k * k = n}, LAMBDA kk : NR(b, 0, [q \in 1..n |-> 1]) \o NR(b, 3, [q \in 1..n |-> IF q % 2 = 0 THEN 4 ELSE -4]))
       \o DSeq(Scales, LAMBDA sc : IF n > 0 THEN NR(b, sc, AtPos(n, 1 + (n \div 2), 9)) ELSE <<>>)
       \o FlattenSeq([i \in 1..(IF Deep THEN 200 ELSE 8) |-> NR(b, 0, TLCEval([k \in 1..n |-> RandomElement((-20)..20)]))]))
     \* norms a little above and below one
     \o DSeq(VLens \ {0}, LAMBDA n :
          DSeq({4095, 4097, -4095, 4099}, LAMBDA x : NR(b, -12, AtPos(n, 1 + (n \div 3), x)))
       \o DSeq({1048575, 1048577, 1048000, 1050000, 1030000, 1060000, 2000001}, LAMBDA x : NR(b, -20, AtPos(n, n, x)))
       \o (IF n > 1 THEN NR(b, -12, Two(n, 1, n, 2457, -3276)) \o NR(b, -12, Two(n, 1, 2, 1928, 3615)) \o NR(b, -13, Two(n, n - 1, n, 2457, 3276)) ELSE <<>>))
     \o DSeq({4000, 4050, 4080, 4090, 4094, 4096, 4098, 4100, 4110, 4150, 4200}, LAMBDA x : NR(b, -12, <<x>>))
     \o DSeq(((-12)..12) \X ((-12)..12), LAMBDA q : NR(b, 0, <<q[1], q[2]>>)))

-----------------------------------------------------------------------------
(* elements that are no ring (Floats) *)
FQ(op, form, bits, isv, d, sc, v) == Q(<<op, form, bits, isv, d[1], d[2], d[3], sc>>, v)
FVals == {0, 1, -1, 2, -3, INF, NINF}
FTame == {0, 1, -1, 2, -3, 5}
FRare == FTame \cup {INF, NINF, NAN}
FPick(n, S) == TLCEval([k \in 1..n |-> RandomElement(S)])
(* mostly tame, a few special *)
FMix(n) == TLCEval([k \in 1..n |-> IF RandomElement(1..5) = 1 THEN RandomElement(FRare) ELSE RandomElement(FTame)])
FOne(n, i, x) == TLCEval([k \in 1..n |-> IF k = i THEN x ELSE RandomElement(FTame)])
Times(n, F(_)) == FlattenSeq([i \in 1..n |-> F(i)])
Both(F(_)) == F(32) \o F(64)
Share == IF Deep THEN 60 ELSE 3
Bit == RandomElement({32, 64})
FProdReqs ==
     DSeq(PShapes, LAMBDA d : LET n == d[1] * d[2] + d[2] * d[3] IN
          Times(IF n <= 40 THEN 4 * Share ELSE Share, LAMBDA i : <<FQ("fmm", i % 4, Bit, 0, d, 0, IF i % 3 = 0 THEN FPick(n, FVals) ELSE FMix(n)),
                                                             FQ("fmm", (i + 1) % 4, Bit, 0, d, 0, FOne(n, IF n = 0 THEN 0 ELSE RandomElement(1..n), RandomElement({INF, NINF, NAN})))>>))
  \o DSeq(0..8, LAMBDA n : Times(3 * Share, LAMBDA i : <<FQ("fmm", 4, Bit, 0, <<n, n, n>>, 0, FMix(2 * n * n))>>))
  \o DSeq(MShapes, LAMBDA s : LET n == s[1] * s[2] + s[2] IN Times(2 * Share, LAMBDA i : <<FQ("fmv", i % 2, Bit, 0, <<s[1], s[2], 1>>, 0, FMix(n)),
                                                             FQ("fmv", i % 2, Bit, 0, <<s[1], s[2], 1>>, 0, FOne(n, IF n = 0 THEN 0 ELSE RandomElement(1..n), INF))>>))
  \o DSeq(VLens, LAMBDA n : Times(2 * Share, LAMBDA i : <<FQ("fdot", 0, Bit, 1, <<n, 1, 1>>, 0, FMix(2 * n))>>)
                          \o DSeq(1..n, LAMBDA i : <<FQ("fdot", 0, Bit, 1, <<n, 1, 1>>, 0, [k \in 1..(2 * n) |-> IF k = i THEN INF ELSE IF k = n + i THEN 0 ELSE 1])>>))
  \o Times(40 * Share, LAMBDA i : <<FQ("fcross", 0, Bit, 1, <<3, 1, 1>>, 0, FMix(6))>>)
FShapes(F(_, _)) == DSeq(VLens, LAMBDA n : F(1, <<n, 1, 1>>)) \o DSeq(MShapes, LAMBDA s : F(0, <<s[1], s[2], 1>>))
FDivs(x) == TLCEval([k \in 1..x |-> RandomElement({0, 6, -6, 12, INF, NINF, NAN})])
HPick(n) == TLCEval([k \in 1..n |-> RandomElement(0..99)])
FArithReqs == FShapes(LAMBDA isv, d : LET k == d[1] * d[2] IN
     DSeq({"fadd", "fsub"}, LAMBDA op : [f \in 1..5 |-> FQ(op, f - 1, Bit, isv, d, 0, FMix(2 * k))] \o Times(Share, LAMBDA i : <<FQ(op, i % 5, Bit, isv, d, 0, FPick(2 * k, FRare))>>))
  \o DSeq({"fmul"}, LAMBDA op : DSeq(FRare, LAMBDA x : [f \in 1..3 |-> FQ(op, f - 1, Bit, isv, d, 0, Append(FMix(k), x))]))
  \o DSeq({"fdiv"}, LAMBDA op : DSeq({0, 1, -1, 2, -3, INF, NINF, NAN}, LAMBDA x : [f \in 1..3 |-> FQ(op, f - 1, Bit, isv, d, 0, Append(FDivs(k), x))]))
  \o <<FQ("fneg", 0, Bit, isv, d, 0, FMix(k)), FQ("fneg", 0, Bit, isv, d, 0, FPick(k, FVals))>>
  \o DSeq({"hadd", "hsub"}, LAMBDA op : [f \in 1..5 |-> FQ(op, f - 1, 0, isv, d, 0, HPick(2 * k))])
  \o (IF isv = 1 THEN DSeq({"hmul", "hdiv"}, LAMBDA op : DSeq({0, 1, 4}, LAMBDA f : <<FQ(op, f, 0, 1, d, 0, HPick(k + 1))>>)) ELSE <<>>)
  \o <<FQ("hneg", 0, 0, isv, d, 0, HPick(k))>>)
FSumReqs == FShapes(LAMBDA isv, d : LET k == d[1] * d[2] IN
     Times(2 * Share, LAMBDA i : <<FQ("fsum", 0, Bit, isv, d, 0, FMix(k))>>)
  \o DSeq(1..k, LAMBDA i : IF k > 40 /\ ~Deep THEN <<>> ELSE <<FQ("fsum", 0, Bit, isv, d, 0, FOne(k, i, RandomElement({INF, NINF, NAN})))>>))
FZeroReqs == FShapes(LAMBDA isv, d : LET k == d[1] * d[2] IN
     <<FQ("fiszero", 0, 32, isv, d, 0, [i \in 1..k |-> 0]), FQ("fiszero", 0, 64, isv, d, 0, [i \in 1..k |-> 0])>>
  \o DSeq(1..k, LAMBDA i : <<FQ("fiszero", 0, Bit, isv, d, 0, [q \in 1..k |-> IF q = i THEN RandomElement({INF, NINF, NAN, 1, -1}) ELSE 0])>>))
FEqReqs == FShapes(LAMBDA isv, d : LET k == d[1] * d[2] IN
     <<FQ("feq", 0, Bit, isv, d, 0, [i \in 1..(2 * k) |-> 0])>>
  \o Times(Share, LAMBDA i : LET v == FMix(k) IN <<FQ("feq", 0, Bit, isv, d, 0, v \o v)>>)
  \o DSeq(1..k, LAMBDA i : LET v == FPick(k, FVals) IN <<FQ("feq", 0, Bit, isv, d, 0, v \o [v EXCEPT ![i] = 7]), FQ("feq", 0, Bit, isv, d, 0, [v EXCEPT ![i] = NAN] \o [v EXCEPT ![i] = NAN])>>))
FMapReqs == DSeq(MShapes, LAMBDA s : <<FQ("hmap", 0, 0, 0, <<s[1], s[2], 1>>, 0, HPick(s[1] * s[2]))>>)
FNormReqs == DSeq(VLens, LAMBDA n : LET d == <<n, 1, 1>> IN
     Both(LAMBDA b : DSeq(1..n, LAMBDA i : <<FQ("fnorm", 0, b, 1, d, 0, FOne(n, i, INF)), FQ("fnorm", 0, b, 1, d, 0, FOne(n, i, NINF)), FQ("fnorm", 0, b, 1, d, 0, FOne(n, i, NAN)),
                                             FQ("funit", 0, b, 1, d, 0, FOne(n, i, INF)), FQ("funit", 0, b, 1, d, 0, FOne(n, i, NAN))>>)
                     \o <<FQ("funit", 0, b, 1, d, 0, [k \in 1..n |-> 0])>>)
  \o (IF n < 2 THEN <<>> ELSE Times(Share, LAMBDA i : LET v == TLCEval([FPick(n, FVals) EXCEPT ![RandomElement(1..n)] = INF]) IN <<FQ("fnorm", 0, Bit, 1, d, 0, v), FQ("funit", 0, Bit, 1, d, 0, v)>>)))
(* row-permuted triangular matrices: exact under elimination and under the cofactor formulas *)
FTri(n, upper) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN RandomElement({1, -1, 2, -2}) ELSE IF (i < j) = upper THEN RandomElement({0, 0, 1, -1}) ELSE 0]])
FPerm(n) == TLCEval(RandomElement(Permutations(1..n)))
FTriang(n, upper) == LET A == FTri(n, upper) p == FPerm(n) IN TLCEval([k \in 1..(n * n) |-> A[p[((k - 1) \div n) + 1]][((k - 1) % n) + 1]])
FScales(b, n) == IF b = 64 THEN {0, 30, -30, 150, -150} \cup (IF n <= 4 THEN {200, -200} ELSE {}) \cup (IF n <= 3 THEN {300, -300} ELSE {}) \cup (IF n <= 2 THEN {400, -400} ELSE {})
                 ELSE {0, 10, -10, 15, -15} \cup (IF n <= 5 THEN {20, -20} ELSE {}) \cup (IF n <= 3 THEN {30, -30} ELSE {}) \cup (IF n <= 2 THEN {45, -45} ELSE {})
FLinReqs(op) == DSeq(1..6, LAMBDA n : Both(LAMBDA b : DSeq(FScales(b, n), LAMBDA sc : Times(5 * Share, LAMBDA i : <<FQ(op, 0, b, 0, <<n, n, 1>>, sc, FTriang(n, i % 2 = 0))>>))))
(* C21: generic numbers, whose results every build must round alike *)
BPick(n) == TLCEval([k \in 1..n |-> RandomElement((-1000000)..1000000)])
BitReqs ==
     FShapes(LAMBDA isv, d : LET k == d[1] * d[2] IN
       <<FQ("bfsum", 0, 32, isv, d, 0, BPick(k)), FQ("bfsum", 0, 64, isv, d, 0, BPick(k)), FQ("bfadd", RandomElement(0..4), Bit, isv, d, 0, BPick(2 * k)), FQ("bfsub", RandomElement(0..4), Bit, isv, d, 0, BPick(2 * k)),
         FQ("bfmul", RandomElement(0..2), Bit, isv, d, 0, BPick(k + 1)), FQ("bfdiv", RandomElement(0..2), Bit, isv, d, 0, BPick(k + 1)), FQ("bfneg", 0, Bit, isv, d, 0, BPick(k))>>)
  \o DSeq(VLens, LAMBDA n : Both(LAMBDA b : <<FQ("bfdot", 0, b, 1, <<n, 1, 1>>, 0, BPick(2 * n)), FQ("bfnorm", 0, b, 1, <<n, 1, 1>>, 0, BPick(n)), FQ("bfunit", 0, b, 1, <<n, 1, 1>>, 0, BPick(n))>>))
  \o DSeq(PShapes, LAMBDA d : DSeq(0..3, LAMBDA f : <<FQ("bfmm", f, Bit, 0, d, 0, BPick(d[1] * d[2] + d[2] * d[3]))>>))
  \o DSeq(0..8, LAMBDA n : Both(LAMBDA b : <<FQ("bfmm", 4, b, 0, <<n, n, n>>, 0, BPick(2 * n * n))>>))
  \o DSeq(MShapes, LAMBDA s : DSeq(0..1, LAMBDA f : <<FQ("bfmv", f, Bit, 0, <<s[1], s[2], 1>>, 0, BPick(s[1] * s[2] + s[2]))>>))
  \o DSeq(1..8, LAMBDA n : Times(4, LAMBDA i : Both(LAMBDA b : <<FQ("bfdet", 0, b, 0, <<n, n, 1>>, 0, BPick(n * n)), FQ("bfinv", 0, b, 0, <<n, n, 1>>, 0, BPick(n * n))>>)))
  \o Times(10, LAMBDA i : Both(LAMBDA b : <<FQ("bfcross", 0, b, 1, <<3, 1, 1>>, 0, BPick(6))>>))

-----------------------------------------------------------------------------
(* C19: every alias and every literal the harness contains *)
LitShapes == {<<0, 0>>} \cup ((1..6) \X (0..6)) \cup {<<1, 32>>, <<32, 1>>, <<2, 16>>, <<16, 2>>, <<3, 17>>, <<17, 3>>, <<10, 12>>, <<7, 7>>, <<8, 8>>,
             <<9, 4>>, <<4, 9>>, <<32, 32>>, <<1, 10>>, <<10, 1>>, <<31, 2>>, <<2, 31>>}
LitReqs == DSeq((1..10) \X {32, 64}, LAMBDA x : <<Q(<<"alias", 1, x[1], x[2]>>, <<>>)>>)
        \o DSeq((2..4) \X {32, 64}, LAMBDA x : <<Q(<<"alias", 2, x[1], x[2]>>, <<>>)>>)
        \o DSeq(0..32, LAMBDA n : <<Q(<<"vlit", n>>, <<>>)>>) \o DSeq(LitShapes, LAMBDA s : <<Q(<<"mlit", s[1], s[2]>>, <<>>)>>)

-----------------------------------------------------------------------------
(* C17, and the trait claims of C15 and C18: programs, with what the compiler must say (to batch them) *)
ProgS == IF Deep THEN 0..4 ELSE 0..3
ProgL == IF Deep THEN {5, 7, 8, 15, 16, 17, 31, 32} ELSE {5, 8, 17, 32}
ProgReqs(ops) == DSeq(ops, LAMBDA op : LET q == SetToSeq(Progs(op, IF Deep /\ op # "rmm" THEN ProgS ELSE 0..3, ProgL)) IN
                   [i \in 1..Len(q) |-> [op |-> op, d |-> q[i], v |-> IF Valid(op, q[i]) THEN 1 ELSE 0]])

Reqs == CASE Family = "render" -> RenderReqs [] Family = "approx" -> ApproxReqs [] Family = "equal" -> EqReqs
          [] Family = "layout" -> LayoutReqs [] Family = "norm" -> NormReqs [] Family = "literals" -> LitReqs
          [] Family = "shapes" -> ProgReqs(ShapeOps) [] Family = "claims-eq" -> ProgReqs(ClaimOps({"eq"}))
          [] Family = "fprod" -> FProdReqs [] Family = "farith" -> FArithReqs [] Family = "fsum" -> FSumReqs [] Family = "fzero" -> FZeroReqs
          [] Family = "feq" -> FEqReqs [] Family = "fmap" -> FMapReqs [] Family = "fnorm" -> FNormReqs [] Family = "fdet" -> FLinReqs("fdet") [] Family = "finv" -> FLinReqs("finv")
          [] Family = "bits" -> BitReqs
          [] Family = "claims-own" -> ProgReqs(ClaimOps({"copy", "clone", "send", "sync"}))
ASSUME ndJsonSerialize(IOEnv.OUT, Reqs)
=============================================================================
