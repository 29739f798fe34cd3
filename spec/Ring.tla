-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* The rings rowcol's containers are observed over.                        *)
(*   gf  : integers modulo a prime p; a value is a number in 0..p-1        *)
(*   rat : exact fractions, observed modulo a prime p that none of their   *)
(*         denominators is divisible by; the arithmetic of gf              *)
(*   int : (p = 0) plain integers, whose division rounds towards zero      *)
(*   sym : the free (non-commutative) ring over generators 1, 2, 3, ...;   *)
(*         a value is a function from words (sequences of generators) to   *)
(*         non-zero integer coefficients; generator -g is the inverse of g *)
(* Identities that hold in the free ring hold in every ring, so one        *)
(* symbolic observation stands for all element values at once.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE ring          \* [sym: BOOLEAN, p: prime or 0]

Sym == ring.sym
P == ring.p

EmptyPoly == [w \in {} |-> 0]
Mono(c, w) == IF c = 0 THEN EmptyPoly ELSE [x \in {w} |-> c]

Zero == IF Sym THEN EmptyPoly ELSE 0
One  == IF Sym THEN Mono(1, <<>>) ELSE IF P = 0 THEN 1 ELSE 1 % P
(* the element a harness parameter stands for *)
Gen(x) == IF Sym THEN (IF x = 0 THEN EmptyPoly ELSE Mono(1, <<x>>)) ELSE IF P = 0 THEN x ELSE x % P
MinValue == IF Sym THEN Mono(1, <<30001>>) ELSE IF P = 0 THEN -1000000 ELSE 0
MaxValue == IF Sym THEN Mono(1, <<30002>>) ELSE IF P = 0 THEN 1000000 ELSE P - 1

Coef(a, w) == IF w \in DOMAIN a THEN a[w] ELSE 0
PAdd(a, b) == IF DOMAIN a = {} THEN b ELSE IF DOMAIN b = {} THEN a ELSE TLCEval(
  [w \in {v \in DOMAIN a \cup DOMAIN b : Coef(a, v) + Coef(b, v) # 0} |-> Coef(a, w) + Coef(b, w)])
PNeg(a) == [w \in DOMAIN a |-> -a[w]]

(* concatenation with cancellation of adjacent inverses *)
RECURSIVE Cat(_, _)
Cat(u, v) == IF u = <<>> THEN v ELSE IF v = <<>> THEN u
             ELSE IF u[Len(u)] = -v[1] THEN Cat(SubSeq(u, 1, Len(u) - 1), Tail(v)) ELSE u \o v

RECURSIVE PSumMono(_, _, _)
PSumMono(a, b, pairs) ==
  IF pairs = {} THEN EmptyPoly
  ELSE LET q == CHOOSE q \in pairs : TRUE IN
       PAdd(Mono(a[q[1]] * b[q[2]], Cat(q[1], q[2])), PSumMono(a, b, pairs \ {q}))
PMul(a, b) == PSumMono(a, b, (DOMAIN a) \X (DOMAIN b))

Rev(w) == [i \in 1..Len(w) |-> -w[Len(w) + 1 - i]]
(* inverse of a monomial with coefficient +-1 *)
PInv(a) == LET w == CHOOSE w \in DOMAIN a : TRUE IN Mono(a[w], Rev(w))

Add(a, b) == IF Sym THEN PAdd(a, b) ELSE IF P = 0 THEN a + b ELSE (a + b) % P
Neg(a)    == IF Sym THEN PNeg(a) ELSE IF P = 0 THEN -a ELSE (-a) % P
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF Sym THEN PMul(a, b) ELSE IF P = 0 THEN a * b ELSE (a * b) % P
Abs(x) == IF x < 0 THEN -x ELSE x
Trunc(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
(* in gf by definition: the x with x*b = a *)
Div(a, b) == IF Sym THEN PMul(a, PInv(b)) ELSE IF P = 0 THEN Trunc(a, b) ELSE CHOOSE x \in 0..(P - 1) : (x * b) % P = a

RECURSIVE SumTo(_, _)          \* sum of f[1] .. f[n]
SumTo(f, n) == IF n = 0 THEN Zero ELSE Add(SumTo(f, n - 1), f[n])
Sum(s) == SumTo(s, Len(s))

(* does an observed value denote the model value v? observed symbolic values are sequences of <<coef, word>> *)
SameVal(v, o) ==
  IF Sym THEN /\ Len(o) = Cardinality(DOMAIN v)
              /\ \A i \in 1..Len(o) : o[i][2] \in DOMAIN v /\ v[o[i][2]] = o[i][1]
         ELSE v = o
(* the model value an observation denotes *)
ValOf(o) == IF Sym THEN [w \in {o[i][2] : i \in 1..Len(o)} |-> (CHOOSE i \in 1..Len(o) : o[i][2] = w)] ELSE o
ValOfObs(o) == IF Sym THEN LET ix == ValOf(o) IN [w \in DOMAIN ix |-> o[ix[w]][1]] ELSE o
SameVals(s, o) == Len(s) = Len(o) /\ \A i \in 1..Len(s) : SameVal(s[i], o[i])
=============================================================================
