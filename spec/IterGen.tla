------------------------------ MODULE IterGen ------------------------------
(***************************************************************************)
(* Generates iterator histories from the state graph of module Deque.      *)
(* The abstract state of an iterator over n items is (f, b): f items taken *)
(* at the front, b at the back.  Three families:                           *)
(*   Edges : every operation in every state (f, b) of every iterator       *)
(*   Tree  : every sequence of operations up to Depth for few items        *)
(*   Walk  : pseudo-random long histories                                  *)
(* A history is [k, t, d, ops]; an operation is <<name, a1, a2>>.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Dims

Big == {-1, -2}       \* 2^64 - 1, 2^64 - 2
(* numbers whose product with a chunk or row length j wraps around; word sizes; byte and half-word sizes *)
Wide(j) == {-300, -301, -302, -303, -304, 256, 257, 65536} \cup (IF j > 1 THEN {-100 - j, -200 - j} ELSE {})
WideOps(j) == {<<c, k, 0>> : c \in {"h", "H", "s"}, k \in Wide(j)}
NonConsuming(m) ==
  {<<"n", 0, 0>>, <<"b", 0, 0>>, <<"l", 0, 0>>, <<"z", 0, 0>>}
  \cup {<<"h", k, 0>> : k \in {0, 1, 2, m, m + 1} \cup (IF m > 0 THEN {m - 1} ELSE {}) \cup Big}
  \cup {<<"H", k, 0>> : k \in {0, 1, m, m + 1} \cup (IF m > 0 THEN {m - 1} ELSE {})}
  \cup {<<"k", k, 0>> : k \in {0, 1, 2, m + 1}}
  \cup {<<c, k, 0>> : c \in {"p", "q"}, k \in {0, 1, m} \cup (IF m > 1 THEN {m - 1} ELSE {})}
  \cup {<<c, k, 0>> : c \in {"i", "j", "I", "J"}, k \in {0, 2, m}}
  \cup {<<c, k, 0>> : c \in {"A", "L", "m", "v"}, k \in {0, m}}
Consuming(m) ==
  {<<c, 0, 0>> : c \in {"c", "t", "f", "g", "F", "r", "o", "d", "M", "N", "U", "P"}}
  \cup {<<"s", k, 0>> : k \in {0, 1, m, m + 1, -1}}
  \cup {<<"y", k, 0>> : k \in {0, 1, 2, m}}
(* observing what is left after an operation *)
Probes == << <<<<"l", 0, 0>>, <<"n", 0, 0>>, <<"b", 0, 0>>, <<"l", 0, 0>>>>,
             <<<<"z", 0, 0>>, <<"b", 0, 0>>, <<"n", 0, 0>>, <<"o", 0, 0>>>> >>

Deep == IOEnv.DEEP = "1"
Seed == atoi(IOEnv.SEED)

(* items of an iterator *)
Items(k, d) ==
  CASE k = "own" -> d[1] [] k = "chunks" -> d[1] \div d[2]
    [] k \in {"rows", "rowsref", "colin"} -> d[1]
    [] k \in {"cols", "colsref"} -> d[2]

(* which (f,b) states are visited: all of them up to 9 items (deep: all), else those near the corners *)
Near(n, x) == x <= 1 \/ x >= n - 1 \/ x = n \div 2
States(n) == {s \in (0..n) \X (0..n) : /\ s[1] + s[2] <= n
                                       /\ \/ n <= (IF IOEnv.KINDS \in {"mat", "all"} THEN 3 ELSE 6) \/ Deep
                                          \/ Near(n, s[1]) /\ (Near(n, s[2]) \/ s[1] + s[2] >= n - 1)}

Prefix(s) == IF s = <<0, 0>> THEN <<>> ELSE <<<<"a", s[1], s[2]>>>>

EdgeOps(n) ==
  UNION {LET m == n - s[1] - s[2] IN
         {Prefix(s) \o <<o>> : o \in Consuming(m)}
         \cup {Prefix(s) \o <<o>> \o Probes[p] : o \in NonConsuming(m), p \in (IF Deep THEN {1, 2} ELSE {1 + ((s[1] + s[2]) % 2)})}
         : s \in States(n)}
(* a reduced family for the secondary element types *)
EdgeOpsFew(n) ==
  UNION {LET m == n - s[1] - s[2] IN
         {Prefix(s) \o <<o>> : o \in Consuming(m)}
         \cup {Prefix(s) \o <<o>> \o Probes[2] : o \in NonConsuming(m)}
         : s \in {s \in (0..n) \X (0..n) : s[1] + s[2] <= n /\ Near(n, s[1]) /\ Near(n, s[2])}}

H(k, t, d, ops) == [k |-> k, t |-> t, d |-> d, ops |-> ops]

Kinds == IF IOEnv.KINDS = "own" THEN {"own"} ELSE IF IOEnv.KINDS = "vec" THEN {"own", "chunks"}
         ELSE {"rows", "cols", "rowsref", "colsref", "colin"} \cup (IF IOEnv.KINDS = "all" THEN {"own", "chunks"} ELSE {})
DimsOf(k) ==
  CASE k = "own" -> {<<n, 0, 0>> : n \in VLens}
    [] k = "chunks" -> {<<s[1], s[2], 0>> : s \in CShapes}
    [] k = "colin" -> {<<s[1], s[2], c>> : s \in {x \in MShapes : x[2] > 0}, c \in {0}}
                      \cup {<<s[1], s[2], s[2] - 1>> : s \in {x \in MShapes : x[2] > 1}}
    [] OTHER -> {<<s[1], s[2], 0>> : s \in MShapes}
FewDimsOf(k) ==
  CASE k = "own" -> {<<n, 0, 0>> : n \in VLensFew}
    [] k = "chunks" -> {<<s[1], s[2], 0>> : s \in CShapesFew}
    [] k = "colin" -> {<<s[1], s[2], 0>> : s \in {x \in MShapesFew : x[2] > 0}}
    [] OTHER -> {<<s[1], s[2], 0>> : s \in MShapesFew}

(* huge and word-sized arguments in a few states *)
Wides(k, d) ==
  LET n == Items(k, d)  j == IF k = "chunks" THEN d[2] ELSE d[1] IN
  UNION {{Prefix(s) \o <<o>> \o (IF o[1] = "s" THEN <<>> ELSE Probes[2]) : o \in WideOps(j)}
         : s \in {s \in {<<0, 0>>, <<1, 0>>, <<1, 1>>} : s[1] + s[2] <= n}}
(* histories as sequences (set union of large nested values is slow in TLC) *)
HS(k, t, d, opss) == LET q == SetToSeq(opss) IN [i \in 1..Len(q) |-> H(k, t, d, q[i])]
DSeq(S, F(_)) == LET q == SetToSeq(S) IN FlattenSeq([i \in 1..Len(q) |-> F(q[i])])

\* quick: the full operation set on the smaller half of the matrix shapes, the reduced one on the rest
Reduced(k, d) == ~Deep /\ k \notin {"own", "chunks"} /\ d[1] + d[2] > 6
EdgesTok == DSeq(Kinds, LAMBDA k : DSeq(DimsOf(k), LAMBDA d :
              HS(k, "tok", d, IF Reduced(k, d) THEN EdgeOpsFew(Items(k, d)) ELSE EdgeOps(Items(k, d)))))
EdgesCp  == DSeq(Kinds, LAMBDA k : DSeq(FewDimsOf(k), LAMBDA d : HS(k, "cp", d, EdgeOpsFew(Items(k, d)))))
EdgesZst == DSeq(FewDimsOf("own"), LAMBDA d : HS("own", "zst", d, EdgeOpsFew(d[1])))
WideDims(k) == IF Deep THEN DimsOf(k) ELSE IF k = "chunks" THEN {<<s[1], s[2], 0>> : s \in {x \in CShapes : x[1] # 0 /\ (x[1] <= 12 \/ x[1] \in {27, 28, 30})}}
               ELSE IF k = "own" THEN {<<n, 0, 0>> : n \in {1, 4, 32}} ELSE {d \in FewDimsOf(k) : d[1] * d[2] > 3}
EdgesWide == DSeq(Kinds, LAMBDA k : DSeq(WideDims(k), LAMBDA d : HS(k, "tok", d, Wides(k, d))))
Edges == EdgesTok \o EdgesWide \o EdgesCp \o (IF "own" \in Kinds THEN EdgesZst ELSE <<>>)

(* every sequence of up to Depth operations *)
Alphabet == {<<"n", 0, 0>>, <<"b", 0, 0>>, <<"h", 0, 0>>, <<"h", 1, 0>>, <<"h", 2, 0>>, <<"h", -1, 0>>, <<"H", 1, 0>>, <<"k", 1, 0>>}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE LET S == Seqs(n - 1) IN {Append(s, o) : s \in S, o \in Alphabet}
Depth == IF Deep THEN 4 ELSE 3
WithLen(s) == s \o <<<<"l", 0, 0>>, <<"o", 0, 0>>>>
SmallDims(k) ==
  CASE k = "own" -> {<<n, 0, 0>> : n \in 0..4}
    [] k = "chunks" -> {<<2, 1, 0>>, <<4, 2, 0>>, <<6, 2, 0>>, <<6, 3, 0>>, <<3, 1, 0>>}
    [] k = "colin" -> {<<2, 2, 1>>, <<3, 2, 0>>, <<4, 3, 2>>}
    [] OTHER -> {<<2, 3, 0>>, <<3, 2, 0>>, <<1, 4, 0>>, <<4, 1, 0>>}
Tree == LET S == {WithLen(s) : s \in Seqs(Depth)} IN
        DSeq(Kinds, LAMBDA k : DSeq(SmallDims(k), LAMBDA d : HS(k, "tok", d, S)))

(* long pseudo-random histories *)
RndOp == LET c == RandomElement({"n", "b", "n", "b", "h", "H", "l", "z", "k", "a", "p", "q", "i", "j", "I", "J", "A", "L", "m", "v"}) IN
         CASE c \in {"h", "H", "p", "q", "i", "j", "I", "J", "A", "L", "m", "v"} -> <<c, RandomElement(0..3), 0>>
           [] c = "k" -> <<c, RandomElement(0..3), 0>>
           [] c = "a" -> <<c, RandomElement(0..2), RandomElement(0..2)>>
           [] OTHER -> <<c, 0, 0>>
RndEnd == RandomElement(Consuming(2) \cup {<<"h", -1, 0>>})
Walk(n) == [i \in 1..n |->
             LET k == RandomElement(Kinds)
                 d == RandomElement(DimsOf(k))
                 len == RandomElement(3..14)
             IN H(k, "tok", d, [j \in 1..len |-> RndOp] \o <<RndEnd>>)]

(* C05: one call's k-th user callback (destructor, clone) panics; fourth component of the operation: k *)
FaultKinds == {"own", "chunks", "rows", "cols", "rowsref", "colsref"}
FaultDims(k) == CASE k = "own" -> {<<n, 0, 0>> : n \in (IF Deep THEN 1..8 ELSE {1, 2, 3, 5})}
                  [] k = "chunks" -> {<<2, 1, 0>>, <<4, 2, 0>>, <<6, 3, 0>>, <<6, 2, 0>>}
                  [] OTHER -> {<<1, 1, 0>>, <<2, 3, 0>>, <<3, 2, 0>>}
FaultOps(m) == {<<c, 0, 0>> : c \in {"n", "b", "c", "t", "f", "g", "F", "r", "o", "d", "M", "N", "U", "P"}}
               \cup {<<"h", k, 0>> : k \in {1, m - 1, m, m + 1, -1}} \cup {<<"H", k, 0>> : k \in {1, m}}
               \cup {<<"k", k, 0>> : k \in {1, m}} \cup {<<"s", 1, 0>>, <<"y", 1, 0>>}
               \cup {<<c, k, 0>> : c \in {"p", "q", "i", "j"}, k \in {1, m}}
               \cup {<<c, k, 0>> : c \in {"I", "J", "A", "L", "m", "v"}, k \in {1}}
Faults == DSeq(FaultKinds, LAMBDA k : DSeq(FaultDims(k), LAMBDA d :
   LET n == Items(k, d)
       st == {s \in {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>} : s[1] + s[2] <= n}
       most == n + IF k \in {"rows", "cols", "rowsref", "colsref"} THEN d[1] * d[2] ELSE d[1]
   IN DSeq(st, LAMBDA s : DSeq(FaultOps(n - s[1] - s[2]), LAMBDA o : [q \in 1..most |->
        H(k, "tok", d, Prefix(s) \o <<o \o <<q>>>> \o <<<<"l", 0, 0>>, <<"d", 0, 0>>>>)]))))

Family == IOEnv.FAMILY
Histories == CASE Family = "edges" -> Edges
               [] Family = "tree" -> Tree
               [] Family = "faults" -> Faults
               [] Family = "walk" -> Walk(atoi(IOEnv.COUNT))
ASSUME ndJsonSerialize(IOEnv.OUT, Histories)
=============================================================================
