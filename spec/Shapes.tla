------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Which programs are well-shaped.  A program is <<operation, dimensions>>;*)
(* it must compile exactly when Valid holds.  Programs for which the       *)
(* library's documentation leaves the question open are not enumerated     *)
(* (Open).                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

PairV == {"vadd", "vaddrv", "vaddvr", "vaddrr", "vsub", "vsubrv", "vsubvr", "vsubrr", "vadda", "vsuba", "vdot", "veq", "vne", "veqh"}
PairM == {"madd", "maddrv", "maddvr", "maddrr", "msub", "msubrv", "msubvr", "msubrr", "madda", "msuba", "meq", "mne", "mrel", "mulps"}
MulM == {"mm", "mmrv", "mmvr", "mmrr"}
MulV == {"mv", "mvr"}
SquareOps == {"det", "inv", "cof"}                \* supported from some size on
SquareMk == {"ident", "one", "pow", "transpose"}  \* any square shape
ExtremeV == {"vmax", "vmin", "vmaxby", "vminby"}
ExtremeM == {"mmax", "mmin", "mmaxby", "mminby"}
IndexV == {"vsget", "vsset"}
IndexM == {"msget", "msset"}
Claims == {"copy", "eq", "clone", "send", "sync"}
MinOf(a, b) == IF a < b THEN a ELSE b

(* element types of claims: 1 plain integer, 2 float, 3 owned text, 4 reference-counted (not thread-safe),
   5 uncopyable and uncloneable, 6 comparison partial but copyable, 7 a shared reference to 5, 8 a cell *)
Has(t, e) ==
  CASE t = "copy" -> e \in {1, 2, 6, 7}
    [] t = "eq" -> e \in {1, 3, 4}
    [] t = "clone" -> e \in {1, 2, 3, 4, 6, 7, 8}
    [] t = "send" -> e \in {1, 2, 3, 5, 6, 7, 8}
    [] t = "sync" -> e \in {1, 2, 3, 5, 6, 7}
(* whether 7 and 8 have Eq depends on element details nobody relies on here *)
ClaimOpen(t, e) == t = "eq" /\ e \in {7, 8}

Valid(op, d) ==
  CASE op \in PairV -> d[1] = d[2]
    [] op \in PairM -> d[1] = d[3] /\ d[2] = d[4]
    [] op \in MulM -> d[2] = d[3]
    [] op = "mma" -> d[1] = d[2] /\ d[2] = d[3] /\ d[3] = d[4]
    [] op \in MulV -> d[2] = d[3]
    [] op \in SquareOps \cup SquareMk -> d[1] = d[2]
    [] op \in ExtremeV -> d[1] > 0
    [] op \in ExtremeM -> d[1] * d[2] > 0
    [] op = "vcross" -> d[1] = 3 /\ d[2] = 3
    [] op \in IndexV -> d[2] < d[1]
    [] op \in IndexM -> d[3] < d[1] /\ d[4] < d[2]
    [] op = "chunks" -> (d[1] % d[2]) = 0
    [] op = "chunkitem" -> (d[1] % d[2]) = 0 /\ d[3] = d[2]
    [] op = "vnew" -> d[1] = d[2]
    [] op = "mnew" -> d[1] = d[3] /\ d[2] = d[4]
    [] op = "diag" -> d[3] = MinOf(d[1], d[2])
    [] op = "reshape" -> d[3] = d[1] * d[2]
    [] op = "vlit" -> d[1] = d[2]
    [] op = "mlit" -> d[1] = d[3] /\ d[2] = d[4]
    [] op = "ragged" -> \A i \in 1..Len(d) : d[i] = d[1]
    [] op = "rmm" -> d[4] = d[1] /\ d[5] = d[3]            \* result of (d1 x d2)(d2 x d3)
    [] op = "rmv" -> d[3] = d[1]
    [] op = "rtransposed" -> d[3] = d[2] /\ d[4] = d[1]
    [] op = "rmap" -> d[3] = d[1] /\ d[4] = d[2]
    [] op = "rinv" -> d[2] = d[1] /\ d[3] = d[1]
    [] op = "rrow" -> d[3] = d[2]
    [] op = "rcol" -> d[3] = d[1]
    [] op = "rvadd" -> d[2] = d[1]
    [] op = "rinner" -> d[2] = d[1]
    [] op \in {"vclaim_" \o t : t \in Claims} \cup {"mclaim_" \o t : t \in Claims} ->
         LET t == CHOOSE t \in Claims : op \in {"vclaim_" \o t, "mclaim_" \o t} IN Has(t, d[1])

Open(op, d) ==
  \/ op = "mma" /\ d[1] # d[2] /\ d[3] = d[2] /\ d[4] = d[2]     \* a defined product the library does not offer
  \/ op \in {"det", "inv"} /\ d = <<0, 0>>
  \/ op = "cof" /\ d[1] = d[2] /\ d[1] < 2
  \/ op \in ExtremeM /\ d[1] # d[2] /\ d[1] * d[2] > 0           \* offered for square matrices only
  \/ op = "reshape" /\ d[2] = 0
  \/ \E t \in Claims : op \in {"vclaim_" \o t, "mclaim_" \o t} /\ ClaimOpen(t, d[1])

Tup(S, k) == CASE k = 1 -> {<<a>> : a \in S} [] k = 2 -> {<<a, b>> : a, b \in S} [] k = 3 -> {<<a, b, c>> : a, b, c \in S}
               [] k = 4 -> {<<a, b, c, e>> : a, b, c, e \in S} [] k = 5 -> {<<a, b, c, e, f>> : a, b, c, e, f \in S}
(* near misses at larger sizes *)
Near(n) == {<<n, n>>, <<n, n - 1>>, <<n - 1, n>>}
NearM(r, c) == {<<r, c, r, c>>, <<r, c, r, c - 1>>, <<r, c, r - 1, c>>, <<r - 1, c, r, c>>, <<r, c - 1, r, c>>, <<r, c, c, r>>}
NearMul(a, b, c) == {<<a, b, b, c>>, <<a, b, b - 1, c>>, <<a, b - 1, b, c>>, <<a, b, a, c>>, <<a, b, c, b>>}

ForOp(op, S, L) ==     \* S: small dimensions, L: larger ones (at least 1)
  CASE op \in PairV \cup {"vnew", "rvadd", "rinner"} -> Tup(S, 2) \cup UNION {Near(n) : n \in L}
    [] op = "vlit" -> Tup(S, 2) \cup UNION {Near(n) : n \in L}
    [] op \in PairM \cup {"mnew", "rmap"} -> Tup(S, 4) \cup UNION {NearM(n, m) : n \in L, m \in {1, 2}} \cup UNION {NearM(m, n) : n \in L, m \in {1, 2}}
    [] op = "mlit" -> {d \in Tup(S, 4) : d[3] > 0 \/ d[4] = 0} \cup UNION {NearM(n, 2) : n \in L \ {1}}
    [] op \in MulM \cup {"mma"} -> Tup(S, 4) \cup UNION {NearMul(2, n, 3) : n \in L} \cup UNION {NearMul(n, 2, 1) : n \in L} \cup UNION {NearMul(1, 3, n) : n \in L}
    [] op \in MulV -> Tup(S, 3) \cup UNION {{<<2, n, n>>, <<2, n, n - 1>>, <<2, n - 1, n>>, <<n, 3, 3>>, <<n, 3, n>>} : n \in L}
    [] op \in SquareOps \cup SquareMk -> Tup(S \cup (4..8), 2) \cup {<<1, 9>>, <<9, 8>>, <<8, 9>>, <<16, 2>>, <<2, 16>>, <<32, 1>>}
    [] op \in ExtremeV -> Tup(S \cup L \cup {5, 6, 7}, 1)
    [] op \in ExtremeM -> Tup(S \cup {5, 6, 8}, 2)
    [] op = "vcross" -> Tup(S \cup {4, 5, 6, 7, 32}, 2)
    [] op \in IndexV -> Tup(S, 2) \cup {<<n, i>> : n \in L, i \in L \cup {0, 1}} \cup UNION {Near(n) : n \in L} \cup {<<n, n + 1>> : n \in L}
    [] op \in IndexM -> Tup(S, 4) \cup UNION {{<<n, 2, n - 1, 1>>, <<n, 2, n, 1>>, <<n, 2, n - 1, 2>>, <<2, n, 1, n - 1>>, <<2, n, 1, n>>, <<2, n, 2, 0>>, <<2, n, 0, n>>, <<n, 2, n, 0>>} : n \in L}
    [] op = "chunks" -> {<<n, i>> : n \in S \cup L \cup {4, 5, 6, 8, 9, 10, 12, 18, 24, 30}, i \in (1..8) \cup {12, 16, 32}}
    [] op = "chunkitem" -> {<<n, i, k>> : n \in {0, 4, 6, 12}, i \in {1, 2, 3, 4, 6}, k \in 0..6}
    [] op = "diag" -> Tup(S \cup {4}, 3) \cup UNION {{<<n, 2, 2>>, <<2, n, 2>>, <<n, 2, n>>, <<2, n, n>>, <<n, 2, 1>>} : n \in L}
    [] op = "reshape" -> {<<r, c, n>> : r \in S, c \in S \ {0}, n \in 0..9} \cup {<<2, 16, 32>>, <<16, 2, 32>>, <<2, 16, 31>>, <<4, 8, 32>>, <<4, 8, 30>>, <<1, 32, 32>>, <<32, 1, 32>>, <<5, 6, 30>>, <<5, 6, 31>>, <<6, 5, 25>>}
    [] op = "ragged" -> Tup(0..3, 2) \cup Tup(0..2, 3) \cup {<<2, 2, 2, 3>>, <<3, 2, 2, 2>>, <<2, 3, 2, 2>>, <<2, 2, 2, 2>>, <<8, 8, 7>>, <<8, 8, 8>>}
    [] op = "rmm" -> {d \in Tup(S \ {0}, 5) : Cardinality({i \in 1..5 : d[i] = 2}) < 5}
    [] op = "rmv" -> Tup(S, 3)
    [] op = "rtransposed" -> Tup(S, 4)
    [] op = "rinv" -> Tup((S \ {0}) \cup {4, 5}, 3)
    [] op \in {"rrow", "rcol"} -> Tup(S, 3)
    [] op \in {"vclaim_" \o t : t \in Claims} -> {<<e, n>> : e \in 1..8, n \in S \cup {32}}
    [] op \in {"mclaim_" \o t : t \in Claims} -> {<<e, r, c>> : e \in 1..8, r \in {0, 2, 3}, c \in {0, 2, 32}}

ShapeOps == PairV \cup PairM \cup MulM \cup {"mma"} \cup MulV \cup SquareOps \cup SquareMk \cup ExtremeV \cup ExtremeM \cup {"vcross"} \cup IndexV \cup IndexM
   \cup {"chunks", "chunkitem", "vnew", "mnew", "diag", "reshape", "vlit", "mlit", "ragged", "rmm", "rmv", "rtransposed", "rmap", "rinv", "rrow", "rcol", "rvadd", "rinner"}
ClaimOps(T) == {"vclaim_" \o t : t \in T} \cup {"mclaim_" \o t : t \in T}
Progs(op, S, L) == {d \in ForOp(op, S, L) : ~Open(op, d)}

(* <<"prog", operation, dimensions, compiled>> *)
ProgOK(e) == e[4] = (IF Valid(e[2], e[3]) THEN 1 ELSE 0)
=============================================================================
