------------------------------ MODULE ViewImpl ------------------------------
(***************************************************************************)
(* Implementation-shaped model of the row and column views: two cursors    *)
(* that are machine words (numbers modulo Word, arithmetic wraps around as *)
(* in a release build), one call per step, nth with every word as its      *)
(* argument.  The underlying matrix is not modelled: item k is <<k>>.      *)
(* Checked: refinement of the abstract queue (Deque), that no item outside *)
(* the matrix is touched, and that the reported length never wraps.        *)
(*   Variant "clamp" : nth advances by min(n, what is left) (this tree)    *)
(*   Variant "full"  : nth advances by min(n, what is left to the matrix's *)
(*                     end), as first found                                *)
(*   Variant "plain" : nth advances by n                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, Word, Variant

VARIABLES n, front, back,
          op, arg, out, num,   \* the last call and what it returned
          held,                \* items handed out (ghost)
          fault                \* an item outside 0..n-1 was touched
vars == <<n, front, back, op, arg, out, num, held, fault>>

W(x) == ((x % Word) + Word) % Word
Init == /\ n \in 0..MaxN /\ front = 0 /\ back = n
        /\ op = "new" /\ arg = 0 /\ out = <<>> /\ num = <<>> /\ held = <<>> /\ fault = FALSE

Give(i) == /\ out' = <<<<i>>>> /\ held' = Append(held, i) /\ fault' = (fault \/ i >= n)
Nothing == out' = <<>> /\ UNCHANGED <<held, fault>>
TakeFront(f) == IF f < back THEN Give(f) /\ front' = W(f + 1) ELSE Nothing /\ front' = f

NextCall == /\ op' = "next" /\ arg' = 0 /\ num' = <<>> /\ TakeFront(front) /\ UNCHANGED <<n, back>>
NextBackCall == /\ op' = "back" /\ arg' = 0 /\ num' = <<>>
                /\ IF front < back THEN Give(W(back - 1)) /\ back' = W(back - 1) ELSE Nothing /\ UNCHANGED back
                /\ UNCHANGED <<n, front>>
NthCall(k) == /\ op' = "nth" /\ arg' = k /\ num' = <<>>
              /\ LET left == W(back - front)
                     full == W(n - front)
                     adv == CASE Variant = "clamp" -> (IF k < left THEN k ELSE left)
                              [] Variant = "full" -> (IF k < full THEN k ELSE full)
                              [] OTHER -> k
                 IN TakeFront(W(front + adv))
              /\ UNCHANGED <<n, back>>
(* the provided nth_back: next_back, over and over *)
NthBackCall(k) ==
  /\ op' = "nthback" /\ arg' = k /\ num' = <<>>
  /\ LET left == IF front < back THEN back - front ELSE 0
         skip == IF k < left THEN k ELSE left
     IN IF skip < left THEN Give(W(back - skip - 1)) /\ back' = W(back - skip - 1)
                       ELSE Nothing /\ back' = W(back - skip)
  /\ UNCHANGED <<n, front>>
LenCall == /\ op' = "len" /\ arg' = 0 /\ num' = <<W(back - front)>> /\ Nothing /\ UNCHANGED <<n, front, back>>

Next == NextCall \/ NextBackCall \/ LenCall \/ (\E k \in 0..(Word - 1) : NthCall(k) \/ NthBackCall(k))
Spec == Init /\ [][Next]_vars

NoFault == ~fault
InOrder == front <= back /\ back <= n
Once == \A a, b \in 1..Len(held) : held[a] = held[b] => a = b

RestMap == [k \in 1..(IF back > front THEN back - front ELSE 0) |-> <<front + k - 1>>]
D == INSTANCE Deque WITH rest <- RestMap
Refines ==
  [][CASE op' = "next" -> D!Next_(FALSE, out', <<>>)
       [] op' = "back" -> D!NextBack(FALSE, out', <<>>)
       [] op' = "nth" -> D!Nth(FALSE, arg', out', <<>>)
       [] op' = "nthback" -> D!NthBack(FALSE, arg', out', <<>>)
       [] op' = "len" -> D!LenQ(num', <<>>)]_vars
=============================================================================
