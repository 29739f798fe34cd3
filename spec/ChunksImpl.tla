----------------------------- MODULE ChunksImpl -----------------------------
(***************************************************************************)
(* Implementation-shaped model of into_chunks(): chunks are cut from the   *)
(* ends of the by-value iterator, one element per step.  A chunk from the  *)
(* back is collected backwards into a vector and then turned around.       *)
(* Checked: refinement of the abstract queue of chunks, nothing handed out *)
(* twice, nothing left over.  Variant "noturn" forgets to turn it around.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxChunks, MaxSize, Variant

VARIABLES c, size, next, back, pc, buf, held, out
vars == <<c, size, next, back, pc, buf, held, out>>

Init == /\ c \in 0..MaxChunks /\ size \in 1..MaxSize
        /\ next = 0 /\ back = c * size
        /\ pc = "idle" /\ buf = <<>> /\ held = <<>> /\ out = <<>>

Start(which) == /\ pc = "idle" /\ out' = <<>>
                /\ pc' = (IF next = back THEN which \o "-none" ELSE which)
                /\ buf' = <<>> /\ UNCHANGED <<c, size, next, back, held>>
(* take(size).collect(): stops after size elements, or when the elements run out *)
PullFront == /\ pc = "front" /\ Len(buf) < size /\ next < back
             /\ buf' = Append(buf, next) /\ next' = next + 1
             /\ UNCHANGED <<c, size, back, pc, held, out>>
PullBack == /\ pc = "back" /\ Len(buf) < size /\ next < back
            /\ buf' = Append(buf, back - 1) /\ back' = back - 1
            /\ UNCHANGED <<c, size, next, pc, held, out>>
Short == /\ pc \in {"front", "back"} /\ Len(buf) < size /\ next = back /\ pc' = "short"
         /\ UNCHANGED <<c, size, next, back, buf, held, out>>
Turned == [k \in 1..Len(buf) |-> buf[Len(buf) + 1 - k]]
Deliver == /\ pc \in {"front", "back"} /\ Len(buf) = size
           /\ LET chunk == IF pc = "front" \/ Variant = "noturn" THEN buf ELSE Turned IN
              out' = <<chunk>> /\ held' = held \o chunk
           /\ pc' = (IF pc = "front" THEN "gave-front" ELSE "gave-back") /\ buf' = <<>>
           /\ UNCHANGED <<c, size, next, back>>
Return == /\ pc \in {"gave-front", "gave-back", "front-none", "back-none"} /\ pc' = "idle"
          /\ UNCHANGED <<c, size, next, back, buf, held, out>>
Next == Start("front") \/ Start("back") \/ PullFront \/ PullBack \/ Short \/ Deliver \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(PullFront \/ PullBack \/ Short \/ Deliver \/ Return)

NeverShort == pc # "short"
Once == \A a, b \in 1..Len(held) : held[a] = held[b] => a = b
Complete == pc = "idle" /\ next = back => Len(held) = c * size
Answers == [](pc \in {"front", "back"} => <>(pc = "idle"))

(* what the abstract queue holds: whole chunks, in order; in the middle of a call, as before it *)
B0 == IF pc = "back" THEN back + Len(buf) ELSE back
N0 == IF pc = "front" THEN next - Len(buf) ELSE next
RestMap == [k \in 1..((B0 - N0) \div size) |-> [x \in 1..size |-> N0 + (k - 1) * size + x - 1]]
D == INSTANCE Deque WITH rest <- RestMap
Refines == [][/\ pc' = "gave-front" => D!Next_(TRUE, out', <<>>)
              /\ pc' = "gave-back" => D!NextBack(TRUE, out', <<>>)
              /\ pc' = "front-none" => D!Next_(TRUE, <<>>, <<>>)
              /\ pc' = "back-none" => D!NextBack(TRUE, <<>>, <<>>)
              /\ pc' \in {"idle", "front", "back"} => UNCHANGED <<RestMap, held>>]_vars
=============================================================================
