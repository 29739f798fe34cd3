------------------------------- MODULE Layout -------------------------------
(* Memory layout and heap use.
   <<"size", kind, r, c, element size, element alignment, size, alignment, byte offset of each element>>
   <<"alloc", operation, r, c, outcome, allocator calls>> *)
EXTENDS Integers, Sequences
LayoutOK(e) ==
  IF e[1] = "size"
  THEN LET n == IF e[2] = 1 THEN e[3] ELSE e[3] * e[4] IN
       /\ e[7] = n * e[5]
       /\ e[8] = e[6]
       /\ Len(e[9]) = n /\ \A k \in 1..n : e[9][k] = (k - 1) * e[5]
  ELSE e[5] = "ok" /\ e[6] = 0
=============================================================================
