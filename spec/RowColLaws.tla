----------------------------- MODULE RowColLaws -----------------------------
(***************************************************************************)
(* The register machine (RowCol!Eff) against the algebra its operations    *)
(* must form: a ring of matrices with transposition, identity and zero.    *)
(* Over the free ring with one generator per position (one instance stands *)
(* for all element values of all rings) and, where commutativity of the    *)
(* elements is needed, over every 2x2 matrix modulo 2 and drawn ones       *)
(* modulo 7.  Operand forms, consumption of operands and the counting of   *)
(* elements are checked for every form.                                    *)
(***************************************************************************)
EXTENDS RowCol

Init == /\ ring \in {[sym |-> TRUE, p |-> 0], [sym |-> FALSE, p |-> 2], [sym |-> FALSE, p |-> 7]}
        /\ regs = <<>>
Next == FALSE /\ UNCHANGED <<ring, regs>>

(* value of a call that delivers one *)
V0(op, pr, A, B) == Eff(op, 0, pr, A, B, FALSE).d[1]
MulM(A, B) == V0("mm", <<>>, A, B)
AddM(A, B) == V0("madd", <<>>, A, B)
SubM(A, B) == V0("msub", <<>>, A, B)
Tr(A) == V0("mtransposed", <<>>, A, <<>>)
Id(n) == V0("mid", <<n>>, <<>>, <<>>)
Z(r, c) == V0("mzero", <<r, c>>, <<>>, <<>>)
G(r, c, off) == MatOf(r, c, LAMBDA i, j : Gen(off + i * c + j))
GV(n, off) == VecOf(n, LAMBDA i : Gen(off + i))
Draw(r, c) == {MatOf(r, c, LAMBDA i, j : TLCEval(RandomElement(0..(P - 1))))}

RingLaws(A, B, K, D) ==     \* A, B: r x k;  K: k x c;  D: c x m
  /\ MulM(MulM(A, K), D) = MulM(A, MulM(K, D))
  /\ MulM(AddM(A, B), K) = AddM(MulM(A, K), MulM(B, K))
  /\ MulM(SubM(A, B), K) = SubM(MulM(A, K), MulM(B, K))
  /\ MulM(Id(R(A)), A) = A /\ MulM(A, Id(C(A))) = A
  /\ AddM(A, Z(R(A), C(A))) = A /\ SubM(A, A) = Z(R(A), C(A)) /\ AddM(A, B) = AddM(B, A)
  /\ MulM(A, Z(C(A), 2)) = Z(R(A), 2)
  /\ Tr(Tr(A)) = A /\ Tr(AddM(A, B)) = AddM(Tr(A), Tr(B)) /\ Tr(Id(3)) = Id(3)
  /\ V0("mneg", <<>>, A, <<>>) = SubM(Z(R(A), C(A)), A)
VecLaws(A, K, v, w) ==      \* A: r x k;  K: k x n;  v, w: n
  /\ V0("mv", <<>>, A, V0("mv", <<>>, K, v)) = V0("mv", <<>>, MulM(A, K), v)
  /\ V0("mv", <<>>, K, V0("vadd", <<>>, v, w)) = V0("vadd", <<>>, V0("mv", <<>>, K, v), V0("mv", <<>>, K, w))
  /\ V0("mv", <<>>, Id(N(v)), v) = v
  \* a matrix-vector product is a product with a one-column matrix; dot is a product of a row and a column
  /\ LET col == Mat(N(v), 1, E(v)) IN E(MulM(K, col)) = E(V0("mv", <<>>, K, v))
  /\ LET row == Mat(1, N(v), E(v)) col == Mat(N(w), 1, E(w)) IN E(MulM(row, col)) = Eff("vdot", 0, <<>>, v, w, FALSE).res
PowLaws(A) ==
  /\ V0("mpow", <<0>>, A, <<>>) = Id(R(A)) /\ V0("mpow", <<1>>, A, <<>>) = A
  /\ \A e \in 1..5 : V0("mpow", <<e + 1>>, A, <<>>) = MulM(V0("mpow", <<e>>, A, <<>>), A)
(* the four operand forms deliver the same value and consume exactly what they take by value *)
Forms(op, A, B) ==
  \A f \in 0..3 : LET x == Eff(op, f, <<>>, A, B, FALSE) IN
    /\ x.out = "ok" /\ x.d = Eff(op, 0, <<>>, A, B, FALSE).d
    /\ x.a = (IF f % 2 = 1 THEN <<>> ELSE Consumed)
    /\ x.b = (IF f \div 2 = 1 THEN <<>> ELSE Consumed)
InPlace(A, B, K) ==         \* the assigning forms do what the plain ones deliver
  /\ Eff("madda", 0, <<>>, A, B, FALSE).a = <<AddM(A, B)>> /\ Eff("msuba", 0, <<>>, A, B, FALSE).a = <<SubM(A, B)>>
  /\ Eff("mma", 0, <<>>, A, K, FALSE).a = <<MulM(A, K)>>
  /\ R(K) = C(K) => Eff("mtranspose", 0, <<>>, K, <<>>, FALSE).a = <<Tr(K)>>
  /\ \A s \in {1, 3} : /\ Eff("mmulsa", 0, <<s>>, A, <<>>, FALSE).a = <<V0("mmuls", <<s>>, A, <<>>)>>
                       /\ V0("mdivs", <<s>>, V0("mmuls", <<s>>, A, <<>>), <<>>) = A
Access(A) ==
  /\ Eff("mread", 0, <<>>, A, <<>>, FALSE).res = E(A)
  /\ \A i \in 0..R(A), j \in 0..C(A) :
       LET g == Eff("mget", 0, <<i, j>>, A, <<>>, FALSE) s == Eff("mset", 0, <<i, j, 5>>, A, <<>>, FALSE) IN
       IF i < R(A) /\ j < C(A)
       THEN /\ g.res = <<At(A, i, j)>>
            /\ Eff("mget", 0, <<j, i>>, Tr(A), <<>>, FALSE).res = g.res
            /\ Eff("mget", 0, <<i, j>>, s.a[1], <<>>, FALSE).res = <<Gen(5)>>
            /\ Cardinality({k \in 1..Len(E(A)) : E(s.a[1])[k] # E(A)[k]}) <= 1
       ELSE g.out = "panic" /\ s.out = "panic"
Cross(u, v, w) ==
  /\ LET x(a, b) == V0("vcross", <<>>, a, b) d(a, b) == Eff("vdot", 0, <<>>, a, b, FALSE).res[1] IN
     /\ Sym \/ (x(u, u) = Vec(3, <<0, 0, 0>>) /\ d(u, x(u, v)) = 0 /\ d(v, x(u, v)) = 0
                /\ x(u, v) = V0("vneg", <<>>, x(v, u), <<>>)
                /\ d(u, x(v, w)) = DetDef(<<E(u), E(v), E(w)>>, P))
     /\ x(V0("vadd", <<>>, u, w), v) = V0("vadd", <<>>, x(u, v), x(w, v))
Commutative(A, B) ==        \* square, elements of a field
  /\ Tr(MulM(A, B)) = MulM(Tr(B), Tr(A))
  /\ Det(MulM(A, B)) = (Det(A) * Det(B)) % P /\ Det(Tr(A)) = Det(A)
  /\ IsInverse(A, B) <=> (MulM(A, B) = Id(R(A)))

Laws ==
  IF Sym THEN
    LET A == G(2, 3, 1) B == G(2, 3, 7) M == G(3, 2, 13) D == G(2, 2, 19) v == GV(2, 23) w == GV(2, 25) IN
    /\ RingLaws(A, B, M, D) /\ VecLaws(A, M, v, w) /\ PowLaws(G(2, 2, 1))
    /\ Forms("mm", A, M) /\ Forms("madd", A, B) /\ Forms("msub", A, B) /\ Forms("vadd", v, w) /\ Forms("vsub", v, w)
    /\ InPlace(A, B, G(3, 3, 30)) /\ Access(A) /\ Access(M) /\ Cross(GV(3, 1), GV(3, 4), GV(3, 7))
    /\ RingLaws(Z(0, 3), Z(0, 3), M, D) /\ RingLaws(G(2, 0, 1), G(2, 0, 1), Z(0, 2), D)
  ELSE IF P = 2 THEN
    \A a, b \in [1..4 -> 0..1] :
      LET A == Mat(2, 2, <<a[1], a[2], a[3], a[4]>>) B == Mat(2, 2, <<b[1], b[2], b[3], b[4]>>) IN
      /\ Commutative(A, B) /\ RingLaws(A, B, B, A) /\ PowLaws(A)
      /\ InPlace(A, B, B)
      \* invertible exactly when some matrix is the inverse
      /\ Eff("minv", 0, <<>>, A, <<>>, FALSE).nums =
           <<Bool(\E x \in [1..4 -> 0..1] : IsInverse(A, Mat(2, 2, <<x[1], x[2], x[3], x[4]>>)))>>
  ELSE
    \A t \in 1..15 : \A A \in Draw(3, 3), B \in Draw(3, 3), X \in Draw(3, 1), Y \in Draw(3, 1), W \in Draw(3, 1) :
      /\ Commutative(A, B) /\ RingLaws(A, B, B, A) /\ PowLaws(A)
      /\ LET u == Vec(3, E(X)) v == Vec(3, E(Y)) w == Vec(3, E(W)) IN
         VecLaws(A, B, u, v) /\ Cross(u, v, w)
         /\ E(Eff("vclamp", 0, <<2, 4>>, u, <<>>, FALSE).a[1]) = [k \in 1..3 |-> IF E(u)[k] < 2 THEN 2 ELSE IF E(u)[k] > 4 THEN 4 ELSE E(u)[k]]
      \* exponents in base 65536 mean what they say: A^(order * k) by digits
      /\ V0("mpow", <<1, 0>>, A, <<>>) = V0("mpow", <<256>>, V0("mpow", <<256>>, A, <<>>), <<>>)
LawsHold == Laws = TRUE
=============================================================================
