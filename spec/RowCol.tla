------------------------------- MODULE RowCol -------------------------------
(***************************************************************************)
(* rowcol as a register machine.  A register is empty (<<>>) or holds      *)
(*    <<1, n, 0, elements>>   a vector of length n, or                     *)
(*    <<2, r, c, elements>>   an r x c matrix, elements in row-major order *)
(* Eff(op, f, pr, A, B) is the effect of one call with operand form f      *)
(* (bit 0: first operand by reference, bit 1: second by reference),        *)
(* integer parameters pr and operand registers A, B:                       *)
(*    out    "ok" or "panic"                                               *)
(*    d      <<>> or <<new contents of the destination>>                   *)
(*    a, b   <<>> (unchanged) or <<new contents of the operand register>>  *)
(*    res    elements handed to the caller;  nums  numbers / truth values  *)
(*    calls  positions a user closure is called with, in order             *)
(* Operations whose result is not unique (extrema among equal keys, order  *)
(* and extent of predicate evaluation) are constrained by Admits instead.  *)
(***************************************************************************)
EXTENDS Ring, LinDef, Gauss, TLC

VARIABLES regs

NR == 8
Consumed == <<<<>>>>

Vec(n, e) == <<1, n, 0, e>>
Mat(r, c, e) == <<2, r, c, e>>
(* TLCEval (the identity) makes TLC build the value once instead of on every application *)
MatOf(r, c, F(_, _)) == Mat(r, c, TLCEval([k \in 1..(r * c) |-> F((k - 1) \div c, (k - 1) % c)]))
VecOf(n, F(_)) == Vec(n, TLCEval([k \in 1..n |-> F(k - 1)]))
N(A) == A[2]          \* length or rows
R(A) == A[2]
C(A) == A[3]
E(A) == A[4]
At(A, i, j) == A[4][i * A[3] + j + 1]
Vt(A, i) == A[4][i + 1]
WithE(A, e) == <<A[1], A[2], A[3], e>>
Count(A) == IF A = <<>> THEN 0 ELSE Len(A[4])

AByRef(f) == f % 2 = 1
BByRef(f) == (f \div 2) % 2 = 1

Plain == [out |-> "ok", d |-> <<>>, a |-> <<>>, b |-> <<>>, res |-> <<>>, nums |-> <<>>, calls |-> <<>>]
Panic == [Plain EXCEPT !.out = "panic"]
ToD(x) == [Plain EXCEPT !.d = <<x>>]
Bool(b) == IF b THEN 1 ELSE 0

RowMajor(r, c) == [k \in 1..(r * c) |-> <<(k - 1) \div c, (k - 1) % c>>]
Indices(n) == [k \in 1..n |-> <<k - 1>>]
InIdx(i, n) == 0 <= i /\ i < n    \* a negative parameter stands for a huge unsigned number

Ew2(A, B, F(_, _)) == WithE(A, TLCEval([k \in 1..Len(E(A)) |-> F(E(A)[k], E(B)[k])]))
Ew1(A, F(_)) == WithE(A, TLCEval([k \in 1..Len(E(A)) |-> F(E(A)[k])]))

(* binary operation by position, operands consumed unless passed by reference *)
Bin(f, A, B, F(_, _)) ==
  [Plain EXCEPT !.d = <<Ew2(A, B, F)>>,
                !.a = IF AByRef(f) THEN <<>> ELSE Consumed,
                !.b = IF BByRef(f) THEN <<>> ELSE Consumed]
BinAssign(A, B, F(_, _)) == [Plain EXCEPT !.a = <<Ew2(A, B, F)>>, !.b = Consumed]
Un(A, F(_)) == [Plain EXCEPT !.d = <<Ew1(A, F)>>, !.a = Consumed]
UnAssign(A, F(_)) == [Plain EXCEPT !.a = <<Ew1(A, F)>>]
(* division by a zero scalar panics in the element type, if there is an element *)
DivGuard(A, s, x) == IF ~Sym /\ s = 0 /\ Len(E(A)) > 0 THEN [x EXCEPT !.out = "panic", !.d = <<>>] ELSE x

ProdOf(A, B) ==   \* (i,j) = sum over k of A(i,k) * B(k,j), factors in this order
  MatOf(R(A), C(B), LAMBDA i, j : Sum([k \in 1..C(A) |-> Mul(At(A, i, k - 1), At(B, k - 1, j))]))
MatVec(A, B) == VecOf(R(A), LAMBDA i : Sum([k \in 1..C(A) |-> Mul(At(A, i, k - 1), Vt(B, k - 1))]))
IdentOf(n) == MatOf(n, n, LAMBDA i, j : IF i = j THEN One ELSE Zero)
RECURSIVE PowOf(_, _)
PowOf(A, e) == IF e = 0 THEN IdentOf(R(A))
               ELSE IF e % 2 = 1 \/ Sym THEN (IF e = 1 THEN A ELSE ProdOf(PowOf(A, e - 1), A))
               ELSE LET h == TLCEval(PowOf(A, e \div 2)) IN ProdOf(h, h)
(* the exponent in base 65536, most significant digit first *)
RECURSIVE PowDigits(_, _)
PowDigits(A, ds) == LET n == Len(ds) IN
  IF n = 1 THEN PowOf(A, ds[1])
  ELSE LET hi == TLCEval(PowOf(TLCEval(PowDigits(A, SubSeq(ds, 1, n - 1))), 65536)) IN ProdOf(hi, PowOf(A, ds[n]))
Transp(A) == MatOf(C(A), R(A), LAMBDA i, j : At(A, j, i))

(* element order (prime-field numbers in their natural order) *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Key(v, pr) == IF P = 0 THEN (v * pr[1]) \div pr[2] ELSE ((v * pr[1]) % P) \div pr[2]

Rows(A) == TLCEval([i \in 1..R(A) |-> [j \in 1..C(A) |-> At(A, i - 1, j - 1)]])
IsInverse(A, B) ==
  LET I == Ident(R(A), P) IN MatMul(Rows(A), Rows(B), P) = I /\ MatMul(Rows(B), Rows(A), P) = I
(* by definition up to 8 x 8; above, by an elimination that is checked against the definition (GaussCheck) *)
DetOf(A, q) == IF Len(A) <= 8 THEN DetDef(A, q) ELSE GDet(A, q)
CofOf(A, i, j, q) == ((IF (i + j) % 2 = 0 THEN 1 ELSE q - 1) * DetOf(MinorOf(A, i, j), q)) % q
Det(A) == DetOf(Rows(A), P)

ListedIn(pr, i, j) == \E q \in 1..(Len(pr) \div 2) : pr[2 * q - 1] = i /\ pr[2 * q] = j

(* collecting `items` elements into a vector of n; Surplus: are too-long sources refused (debug assertions) *)
Collect(n, items, F(_), refuse) ==
  IF items < n THEN Panic ELSE IF items > n /\ refuse THEN Panic ELSE ToD(VecOf(n, F))

Eff(op, f, pr, A, B, refuse) ==
  CASE \* ---- construction
       op = "vnew" -> ToD(VecOf(pr[1], LAMBDA i : Gen(pr[2 + i])))
    [] op = "vgen" -> [ToD(VecOf(pr[1], LAMBDA i : Gen(pr[2 + i]))) EXCEPT !.calls = Indices(pr[1])]
    [] op = "vcol" -> ToD(VecOf(pr[1], LAMBDA i : Gen(pr[2 + i])))
    [] op = "vcolx" -> Collect(pr[1], pr[2], LAMBDA i : Gen(i + 1), refuse)
    [] op \in {"vdef", "vzero"} -> ToD(VecOf(pr[1], LAMBDA i : Zero))
    [] op = "vmin" -> ToD(VecOf(pr[1], LAMBDA i : MinValue))
    [] op = "vmax" -> ToD(VecOf(pr[1], LAMBDA i : MaxValue))
    [] op = "mnew" -> ToD(MatOf(pr[1], pr[2], LAMBDA i, j : Gen(pr[3 + i * pr[2] + j])))
    [] op = "mgen" -> [ToD(MatOf(pr[1], pr[2], LAMBDA i, j : Gen(pr[3 + i * pr[2] + j]))) EXCEPT !.calls = RowMajor(pr[1], pr[2])]
    [] op = "mdiag" -> ToD(MatOf(pr[1], pr[2], LAMBDA i, j : IF i = j THEN Gen(pr[3 + i]) ELSE Zero))
    [] op \in {"mdef", "mzero"} -> ToD(MatOf(pr[1], pr[2], LAMBDA i, j : Zero))
    [] op = "mmin" -> ToD(MatOf(pr[1], pr[2], LAMBDA i, j : MinValue))
    [] op = "mmax" -> ToD(MatOf(pr[1], pr[2], LAMBDA i, j : MaxValue))
    [] op \in {"mid", "mone"} -> ToD(IdentOf(pr[1]))
    [] op = "mfrom" -> [ToD(MatOf(pr[1], pr[2], LAMBDA i, j : Vt(A, i * pr[2] + j))) EXCEPT !.a = Consumed]
       \* ---- whole-value operations
    [] op \in {"vclone", "mclone"} -> ToD(A)
    [] op = "vinner" -> [ToD(A) EXCEPT !.a = Consumed]
    [] op \in {"vdrop", "mdrop"} -> [Plain EXCEPT !.a = Consumed]
    [] op = "vlen" -> [Plain EXCEPT !.nums = <<N(A), Bool(N(A) = 0)>>]
    [] op = "mdim" -> [Plain EXCEPT !.nums = <<R(A), C(A), R(A), C(A)>>]
    [] op \in {"veq", "meq"} -> [Plain EXCEPT !.nums = <<Bool(E(A) = E(B)), Bool(E(A) # E(B))>>]
    [] op \in {"viszero", "miszero"} -> [Plain EXCEPT !.nums = <<Bool(\A k \in 1..Len(E(A)) : E(A)[k] = Zero)>>]
       \* ---- access
    [] op \in {"vread", "mread"} -> [Plain EXCEPT !.res = E(A)]
    [] op \in {"vget", "vsget"} -> IF InIdx(pr[1], N(A)) THEN [Plain EXCEPT !.res = <<Vt(A, pr[1])>>] ELSE Panic
    [] op \in {"vset", "vsset"} -> IF InIdx(pr[1], N(A))
                       THEN [Plain EXCEPT !.a = <<WithE(A, [E(A) EXCEPT ![pr[1] + 1] = Gen(pr[2])])>>] ELSE Panic
    [] op \in {"mget", "msget"} -> IF InIdx(pr[1], R(A)) /\ InIdx(pr[2], C(A))
                       THEN [Plain EXCEPT !.res = <<At(A, pr[1], pr[2])>>] ELSE Panic
    [] op \in {"mset", "msset"} -> IF InIdx(pr[1], R(A)) /\ InIdx(pr[2], C(A))
                       THEN [Plain EXCEPT !.a = <<WithE(A, [E(A) EXCEPT ![pr[1] * C(A) + pr[2] + 1] = Gen(pr[3])])>>] ELSE Panic
    [] op = "mcolin" -> IF InIdx(pr[1], C(A)) THEN [Plain EXCEPT !.res = [i \in 1..R(A) |-> At(A, i - 1, pr[1])]] ELSE Panic
       \* ---- elementwise arithmetic
    [] op \in {"vadd", "madd"} -> Bin(f, A, B, Add)
    [] op \in {"vsub", "msub"} -> Bin(f, A, B, Sub)
    [] op \in {"vadda", "madda"} -> BinAssign(A, B, Add)
    [] op \in {"vsuba", "msuba"} -> BinAssign(A, B, Sub)
    [] op \in {"vneg", "mneg"} -> Un(A, Neg)
    [] op \in {"vmuls", "mmuls"} -> Un(A, LAMBDA x : Mul(x, Gen(pr[1])))
    [] op \in {"vdivs", "mdivs"} -> DivGuard(A, Gen(pr[1]), Un(A, LAMBDA x : Div(x, Gen(pr[1]))))
    [] op \in {"vmulsa", "mmulsa"} -> UnAssign(A, LAMBDA x : Mul(x, Gen(pr[1])))
    [] op \in {"vdivsa", "mdivsa"} -> UnAssign(A, LAMBDA x : Div(x, Gen(pr[1])))
       \* ---- products
    [] op = "mm" -> [ToD(ProdOf(A, B)) EXCEPT !.a = IF AByRef(f) THEN <<>> ELSE Consumed, !.b = IF BByRef(f) THEN <<>> ELSE Consumed]
    [] op = "mma" -> [Plain EXCEPT !.a = <<ProdOf(A, B)>>, !.b = Consumed]
    [] op = "mv" -> [ToD(MatVec(A, B)) EXCEPT !.a = Consumed, !.b = IF BByRef(f) THEN <<>> ELSE Consumed]
    [] op = "mpow" -> ToD(PowDigits(A, pr))
    [] op = "vdot" -> [Plain EXCEPT !.res = <<Sum([k \in 1..N(A) |-> Mul(E(A)[k], E(B)[k])])>>]
    [] op = "vcross" -> ToD(Vec(3, <<Sub(Mul(Vt(A, 1), Vt(B, 2)), Mul(Vt(A, 2), Vt(B, 1))),
                                     Sub(Mul(Vt(A, 2), Vt(B, 0)), Mul(Vt(A, 0), Vt(B, 2))),
                                     Sub(Mul(Vt(A, 0), Vt(B, 1)), Mul(Vt(A, 1), Vt(B, 0)))>>))
       \* ---- rearrangement and closures
    [] op = "mtransposed" -> ToD(Transp(A))
    [] op = "mtranspose" -> [Plain EXCEPT !.a = <<Transp(A)>>]
    [] op = "mmap" -> [ToD(MatOf(R(A), C(A), LAMBDA i, j : Add(At(A, i, j), Gen(1000 + 40 * i + j))))
                         EXCEPT !.a = Consumed, !.res = E(A), !.calls = RowMajor(R(A), C(A))]
    [] op = "mall" -> [Plain EXCEPT !.nums = <<Bool(\A i \in 0..(R(A) - 1), j \in 0..(C(A) - 1) : ListedIn(pr, i, j))>>]
    [] op = "many" -> [Plain EXCEPT !.nums = <<Bool(\E i \in 0..(R(A) - 1), j \in 0..(C(A) - 1) : ListedIn(pr, i, j))>>]
    [] op = "mconj" -> [ToD(A) EXCEPT !.a = Consumed, !.b = Consumed, !.res = E(Ew1(B, Neg))]
       \* ---- sums, extrema, bounds
    [] op \in {"vsum", "msum"} -> [Plain EXCEPT !.res = <<Sum(E(A))>>]
    [] op \in {"vextreme", "mextreme"} -> Plain
    [] op \in {"vclamp", "mclamp"} -> [Plain EXCEPT !.a = <<Ew1(A, LAMBDA x : Clamp(x, Gen(pr[1]), Gen(pr[2])))>>]
    [] op \in {"vclamped", "mclamped"} -> ToD(Ew1(A, LAMBDA x : Clamp(x, Gen(pr[1]), Gen(pr[2]))))
       \* ---- linear algebra over the prime field
    [] op = "mdet" -> [Plain EXCEPT !.res = <<Det(A)>>]
    [] op = "mcof" -> IF InIdx(pr[1], R(A)) /\ InIdx(pr[2], C(A))
                      THEN [Plain EXCEPT !.res = <<CofOf(Rows(A), pr[1] + 1, pr[2] + 1, P)>>] ELSE Panic
    [] op = "minv" -> [Plain EXCEPT !.nums = <<Bool(Det(A) # 0)>>]

Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j

(* what the observed results must satisfy: x the effect, o* the observations *)
Admits(op, f, pr, A, x, ores, onums, ocalls, od) ==
  CASE op \in {"vextreme", "mextreme"} ->
         LET K(v) == IF f < 2 THEN v ELSE Key(v, pr) IN
         /\ Len(ores) = 1
         /\ \E k \in 1..Len(E(A)) : E(A)[k] = ores[1]
         /\ \A k \in 1..Len(E(A)) : IF f % 2 = 0 THEN K(E(A)[k]) <= K(ores[1]) ELSE K(E(A)[k]) >= K(ores[1])
         /\ onums = <<>> /\ ocalls = <<>>
    [] op \in {"mall", "many"} ->    \* no pair twice, each pair as it is in the matrix
         /\ onums = x.nums
         /\ Distinct(ocalls) /\ Len(ores) = Len(ocalls)
         /\ \A q \in 1..Len(ocalls) :
              LET i == ocalls[q][1] j == ocalls[q][2] IN
              InIdx(i, R(A)) /\ InIdx(j, C(A)) /\ SameVal(At(A, i, j), ores[q])
    [] op = "minv" -> /\ onums = x.nums /\ ores = <<>> /\ ocalls = <<>>
                      /\ IF x.nums = <<0>> THEN od = <<>> ELSE od # <<>> /\ IsInverse(A, od)
    [] OTHER -> SameVals(x.res, ores) /\ onums = x.nums /\ ocalls = x.calls

(* registers after a call *)
After(x, d, a, b, od, op) ==
  LET r1 == IF a > 0 /\ x.a # <<>> THEN [regs EXCEPT ![a] = x.a[1]] ELSE regs
      r2 == IF b > 0 /\ x.b # <<>> THEN [r1 EXCEPT ![b] = x.b[1]] ELSE r1
      r3 == IF op = "minv" THEN [r2 EXCEPT ![d] = od]
            ELSE IF d > 0 /\ x.d # <<>> THEN [r2 EXCEPT ![d] = x.d[1]] ELSE r2
  IN r3
=============================================================================
