------------------------------ MODULE HistGen -------------------------------
(***************************************************************************)
(* Long mixed histories of the register machine RowCol: random walks that  *)
(* track which shape each register holds and call any operation that is    *)
(* defined there, in any operand form, with any registers.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Deep == IOEnv.DEEP = "1"
Rg == 1..5
HVLens == {0, 1, 2, 3, 4, 5, 6, 8, 9, 12, 16}
HMShapes == {<<0, 0>>, <<0, 2>>, <<2, 0>>, <<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>, <<4, 4>>, <<2, 4>>, <<4, 2>>, <<3, 4>>, <<4, 3>>}
HPShapes == {<<1, 1, 1>>, <<2, 2, 2>>, <<3, 3, 3>>, <<4, 4, 4>>, <<2, 3, 2>>, <<3, 2, 3>>, <<2, 2, 3>>, <<3, 2, 2>>, <<2, 3, 3>>, <<3, 3, 2>>, <<1, 3, 1>>, <<3, 1, 3>>,
             <<2, 0, 2>>, <<0, 2, 0>>, <<2, 3, 4>>, <<4, 3, 2>>, <<2, 4, 2>>, <<4, 2, 4>>, <<3, 4, 3>>, <<4, 3, 4>>}
HExtremes == {1, 2, 3, 4, 5, 6, 8, 9, 12, 16}

Pick(S) == RandomElement(S)
Op(n, f, d, a, b, p) == <<n, f, d, a, b, p>>
Vals(n) == TLCEval([i \in 1..n |-> Pick({0, 1, 2, 3, 5, 6, 9, 17})])
V(n) == <<1, n, 0>>
M(r, c) == <<2, r, c>>

MkV == {"vnew", "vgen", "vcol", "vdef", "vzero", "vmin", "vmax"}
MkM == {"mnew", "mgen", "mdef", "mzero", "mmin", "mmax", "mdiag"}
MkS == {"mid", "mone"}
VBin == {"vadd", "vsub"}           VAsg == {"vadda", "vsuba"}
MBin == {"madd", "msub"}           MAsg == {"madda", "msuba"}
VScal == {"vmuls", "vdivs"}        VScalA == {"vmulsa", "vdivsa"}
MScal == {"mmuls", "mdivs"}        MScalA == {"mmulsa", "mdivsa"}
Linear == MkV \cup MkM \cup MkS \cup VBin \cup MBin \cup VAsg \cup MAsg \cup VScal \cup VScalA \cup MScal \cup MScalA
  \cup {"vneg", "mneg", "vclone", "mclone", "vinner", "vlen", "mdim", "vread", "mread", "vget", "mget", "vset", "mset", "mcolin", "veq", "meq", "viszero", "miszero",
        "vdrop", "mdrop", "mtransposed", "mtranspose", "mmap", "mall", "many", "mconj", "vsum", "msum", "mfrom"}
Numeric == {"mm", "mma", "mv", "mpow", "vdot", "vcross", "vextreme", "mextreme", "vclamp", "mclamp", "vclamped", "mclamped", "mdet", "mcof", "minv"}

Hold(st, k) == {i \in Rg : st[i] # <<>> /\ st[i][1] = k}
Pairs(st, k) == {<<i, j>> \in Hold(st, k) \X Hold(st, k) : st[i] = st[j]}
Sq(st) == {i \in Hold(st, 2) : st[i][2] = st[i][3]}
Take(st, f, a, b) ==     \* by-value operands leave their registers
  LET s1 == IF f % 2 = 1 THEN st ELSE [st EXCEPT ![a] = <<>>]
  IN IF (f \div 2) % 2 = 1 THEN s1 ELSE [s1 EXCEPT ![b] = <<>>]
Some(p) == p \o <<>>

(* <<op, new state>>, or <<>> if the operation is not defined for what the registers hold *)
OutIdx(n) == Pick(IF n = 0 THEN {0, 1, -1} ELSE {n, n + 1, -1, 0, n - 1})
Make(op, st, d) ==
  IF op \in MkV THEN LET n == Pick(HVLens) IN <<Op(op, 0, d, 0, 0, <<n>> \o (IF op \in {"vnew", "vgen", "vcol"} THEN Vals(n) ELSE <<>>)), [st EXCEPT ![d] = V(n)]>>
  ELSE IF op \in MkS THEN LET n == Pick({1, 2, 3, 4}) IN <<Op(op, 0, d, 0, 0, <<n>>), [st EXCEPT ![d] = M(n, n)]>>
  ELSE LET s == Pick(HMShapes)  w == IF s[1] < s[2] THEN s[1] ELSE s[2] IN
       <<Op(op, 0, d, 0, 0, s \o (IF op \in {"mnew", "mgen"} THEN Vals(s[1] * s[2]) ELSE IF op = "mdiag" THEN Vals(w) ELSE <<>>)), [st EXCEPT ![d] = M(s[1], s[2])]>>
Sc == Pick({1, 3, 5})    \* units modulo every p used: a division must not panic here
PosOf(s) == IF s[1] = 0 \/ s[2] = 0 THEN <<>> ELSE <<Pick(0..(s[1] - 1)), Pick(0..(s[2] - 1))>>
AllPos(s) == TLCEval([k \in 1..(2 * s[1] * s[2]) |-> LET q == (k - 1) \div 2 IN IF k % 2 = 1 THEN q \div s[2] ELSE q % s[2]])

Try(op, st) ==
  LET d == Pick(Rg)
      hv == Hold(st, 1)  hm == Hold(st, 2)  sq == Sq(st)
      pv == Pairs(st, 1)  pm == Pairs(st, 2)
      One(S, F(_)) == IF S = {} THEN <<>> ELSE F(Pick(S))
      Un(S) == One(S, LAMBDA a : <<Op(op, 0, d, a, 0, <<>>), [[st EXCEPT ![a] = <<>>] EXCEPT ![d] = st[a]]>>)
      Look(S, f) == One(S, LAMBDA a : <<Op(op, f, 0, a, 0, <<>>), st>>)
      Binary(PP) == LET f == Pick(0..3)  ok == IF f = 3 THEN PP ELSE {x \in PP : x[1] # x[2]} IN
        One(ok, LAMBDA x : <<Op(op, f, d, x[1], x[2], <<>>), [Take(st, f, x[1], x[2]) EXCEPT ![d] = st[x[1]]]>>)
      Assign(PP) == One({x \in PP : x[1] # x[2]}, LAMBDA x : <<Op(op, 0, 0, x[1], x[2], <<>>), [st EXCEPT ![x[2]] = <<>>]>>)
  IN
  CASE op \in MkV \cup MkM \cup MkS -> Make(op, st, d)
    [] op \in VBin -> Binary(pv) [] op \in MBin -> Binary(pm)
    [] op \in VAsg -> Assign(pv) [] op \in MAsg -> Assign(pm)
    [] op \in {"vneg", "vinner"} -> Un(hv) [] op = "mneg" -> Un(hm)
    [] op \in VScal -> One(hv, LAMBDA a : <<Op(op, Pick({0, 1}), d, a, 0, <<Sc>>), [[st EXCEPT ![a] = <<>>] EXCEPT ![d] = st[a]]>>)
    [] op \in MScal -> One(hm, LAMBDA a : <<Op(op, Pick({0, 1}), d, a, 0, <<Sc>>), [[st EXCEPT ![a] = <<>>] EXCEPT ![d] = st[a]]>>)
    [] op \in VScalA -> One(hv, LAMBDA a : <<Op(op, Pick({0, 1}), 0, a, 0, <<Sc>>), st>>)
    [] op \in MScalA -> One(hm, LAMBDA a : <<Op(op, 0, 0, a, 0, <<Sc>>), st>>)
    [] op = "vclone" -> One(hv, LAMBDA a : <<Op(op, 0, d, a, 0, <<>>), [st EXCEPT ![d] = st[a]]>>)
    [] op = "mclone" -> One(hm, LAMBDA a : <<Op(op, 0, d, a, 0, <<>>), [st EXCEPT ![d] = st[a]]>>)
    [] op = "vlen" -> Look(hv, 0) [] op = "mdim" -> Look(hm, 0)
    [] op = "vread" -> Look(hv, Pick(0..6)) [] op = "mread" -> Look(hm, Pick(0..6))
    [] op \in {"viszero", "vsum"} -> Look(hv, 0) [] op \in {"miszero", "msum"} -> Look(hm, 0)
    [] op = "vget" -> One(hv, LAMBDA a : <<Op(op, Pick({0, 1, 2}), 0, a, 0, <<OutIdx(st[a][2])>>), st>>)
    [] op = "vset" -> One(hv, LAMBDA a : <<Op(op, Pick({0, 1, 2, 3}), 0, a, 0, <<OutIdx(st[a][2]), 7>>), st>>)
    [] op = "mget" -> One(hm, LAMBDA a : <<Op(op, 0, 0, a, 0, <<OutIdx(st[a][2]), OutIdx(st[a][3])>>), st>>)
    [] op = "mset" -> One(hm, LAMBDA a : <<Op(op, 0, 0, a, 0, <<OutIdx(st[a][2]), OutIdx(st[a][3]), 7>>), st>>)
    [] op = "mcolin" -> One(hm, LAMBDA a : <<Op(op, 0, 0, a, 0, <<OutIdx(st[a][3])>>), st>>)
    [] op = "veq" -> One(pv, LAMBDA x : <<Op(op, 0, 0, x[1], x[2], <<>>), st>>) [] op = "meq" -> One(pm, LAMBDA x : <<Op(op, 0, 0, x[1], x[2], <<>>), st>>)
    [] op = "vdrop" -> One(hv, LAMBDA a : <<Op(op, 0, 0, a, 0, <<>>), [st EXCEPT ![a] = <<>>]>>)
    [] op = "mdrop" -> One(hm, LAMBDA a : <<Op(op, 0, 0, a, 0, <<>>), [st EXCEPT ![a] = <<>>]>>)
    [] op = "mtransposed" -> One(hm, LAMBDA a : <<Op(op, 0, d, a, 0, <<>>), [st EXCEPT ![d] = M(st[a][3], st[a][2])]>>)
    [] op = "mtranspose" -> Look(sq, 0)
    [] op = "mmap" -> Un(hm)
    [] op \in {"mall", "many"} -> One(hm, LAMBDA a : LET s == <<st[a][2], st[a][3]>> IN <<Op(op, 0, 0, a, 0, IF op = "mall" /\ Pick({0, 1}) = 1 THEN AllPos(s) ELSE PosOf(s)), st>>)
    [] op = "mconj" -> One({x \in pm : x[1] # x[2]}, LAMBDA x : <<Op(op, 0, d, x[1], x[2], <<>>), [Take(st, 0, x[1], x[2]) EXCEPT ![d] = st[x[1]]]>>)
    [] op = "mfrom" -> LET ok == {<<a, s>> \in hv \X HMShapes : s[2] > 0 /\ s[1] > 0 /\ s[1] * s[2] = st[a][2]} IN
         One(ok, LAMBDA x : <<Op(op, 0, d, x[1], 0, x[2]), [[st EXCEPT ![x[1]] = <<>>] EXCEPT ![d] = M(x[2][1], x[2][2])]>>)
    [] op = "mm" -> LET f == Pick(0..3)
                        ok == {x \in hm \X hm : st[x[1]][3] = st[x[2]][2] /\ <<st[x[1]][2], st[x[1]][3], st[x[2]][3]>> \in HPShapes /\ (x[1] # x[2] \/ f = 3)} IN
         One(ok, LAMBDA x : <<Op(op, f, d, x[1], x[2], <<>>), [Take(st, f, x[1], x[2]) EXCEPT ![d] = M(st[x[1]][2], st[x[2]][3])]>>)
    [] op = "mma" -> Assign({x \in pm : x[1] \in sq})
    [] op = "mv" -> LET f == Pick({0, 2})  ok == {x \in hm \X hv : st[x[1]][3] = st[x[2]][2]} IN
         One(ok, LAMBDA x : <<Op(op, f, d, x[1], x[2], <<>>), [Take(st, f, x[1], x[2]) EXCEPT ![d] = V(st[x[1]][2])]>>)
    [] op = "mpow" -> One(sq, LAMBDA a : <<Op(op, 0, d, a, 0, <<Pick(0..9)>>), [st EXCEPT ![d] = st[a]]>>)
    [] op = "vdot" -> One(pv, LAMBDA x : <<Op(op, 0, 0, x[1], x[2], <<>>), st>>)
    [] op = "vcross" -> One({x \in pv : st[x[1]][2] = 3}, LAMBDA x : <<Op(op, 0, d, x[1], x[2], <<>>), [st EXCEPT ![d] = V(3)]>>)
    [] op = "vextreme" -> One({a \in hv : st[a][2] \in HExtremes}, LAMBDA a : <<Op(op, Pick(0..3), 0, a, 0, <<Pick({1, 3, 5}), Pick({1, 2})>>), st>>)
    [] op = "mextreme" -> One({a \in sq : st[a][2] \in 1..4}, LAMBDA a : <<Op(op, Pick(0..3), 0, a, 0, <<Pick({1, 3, 5}), Pick({1, 2})>>), st>>)
    [] op = "vclamp" -> One(hv, LAMBDA a : <<Op(op, 0, 0, a, 0, <<2, Pick({2, 6})>>), st>>) [] op = "mclamp" -> One(hm, LAMBDA a : <<Op(op, 0, 0, a, 0, <<2, Pick({2, 6})>>), st>>)
    [] op = "vclamped" -> One(hv, LAMBDA a : <<Op(op, 0, d, a, 0, <<2, 6>>), [st EXCEPT ![d] = st[a]]>>)
    [] op = "mclamped" -> One(hm, LAMBDA a : <<Op(op, 0, d, a, 0, <<2, 6>>), [st EXCEPT ![d] = st[a]]>>)
    [] op = "mdet" -> Look({a \in sq : st[a][2] \in 1..4}, 0)
    [] op = "mcof" -> One({a \in sq : st[a][2] \in 2..4}, LAMBDA a : <<Op(op, 0, 0, a, 0, <<OutIdx(st[a][2]), OutIdx(st[a][2])>>), st>>)
    \* whether a result is stored depends on the values, so that the register must not be used unread
    [] op = "minv" -> One({a \in sq : st[a][2] \in 1..4}, LAMBDA a : <<Op(op, 0, 6, a, 0, <<>>), st>>)

RECURSIVE Walk(_, _, _)
Walk(ops, st, k) ==
  IF k = 0 THEN <<>>
  ELSE LET t == TLCEval(Try(Pick(ops), st)) IN
       IF t = <<>> THEN Walk(ops, st, k - 1) ELSE TLCEval(<<t[1]>> \o Walk(ops, t[2], k - 1))
Empty == [i \in Rg |-> <<>>]
(* registers start filled, so that most operations are defined *)
RECURSIVE Fill(_, _)
Fill(st, k) == IF k = 0 THEN <<<<>>, st>> ELSE
  LET t == TLCEval(Make(Pick({"vgen", "vnew", "mgen", "mnew", "mgen"}), st, k))  r == TLCEval(Fill(t[2], k - 1)) IN <<<<t[1]>> \o r[1], r[2]>>
Hist(ops, k) == LET f == TLCEval(Fill(Empty, 5)) IN f[1] \o Walk(ops, f[2], k)
Count == IF Deep THEN 12000 ELSE 1500
(* equal shapes and square shapes are what most operations need: some histories stay within few of them *)
Histories == [i \in 1..Count |-> LET sym == i % 4 = 0 IN
   [m |-> IF sym THEN "sym" ELSE "gf", p |-> IF sym THEN 7 ELSE Pick({2, 7, 101, 10007}),
    t |-> IF sym \/ i % 3 # 0 THEN "tok" ELSE "cp", ops |-> TLCEval(Hist(IF sym THEN Linear ELSE Linear \cup Numeric, IF sym THEN 12 ELSE 25))]]
ASSUME ndJsonSerialize(IOEnv.OUT, Histories)
=============================================================================
