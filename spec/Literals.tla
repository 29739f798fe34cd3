------------------------------ MODULE Literals ------------------------------
(* Type aliases and literal macros.
   <<"alias", kind named, n named, bits named, kind, rows, columns, bits>>
   <<"vlit", n written, length, elements, order of evaluation>>
   <<"mlit", r written, c written, rows, columns, elements, order of evaluation>>
   The i-th expression written has value i. *)
EXTENDS Integers, Sequences
UpTo(n) == [i \in 1..n |-> i]
LiteralOK(e) ==
  CASE e[1] = "alias" -> /\ e[5] = e[2] /\ e[6] = e[3] /\ e[8] = e[4]
                         /\ e[7] = (IF e[2] = 1 THEN 0 ELSE e[3])
    [] e[1] = "vlit" -> e[3] = e[2] /\ e[4] = UpTo(e[2]) /\ e[5] = UpTo(e[2])
    [] e[1] = "mlit" -> e[4] = e[2] /\ e[5] = e[3] /\ e[6] = UpTo(e[2] * e[3]) /\ e[7] = UpTo(e[2] * e[3])
=============================================================================
