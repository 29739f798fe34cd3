---------------------------- MODULE RowColTrace ----------------------------
(***************************************************************************)
(* Judges recorded histories of real container operations against RowCol.  *)
(* One line of the trace file is one history: m, p (ring), t (tok: every   *)
(* element is counted; cp: Copy), ev (events).  An event is                *)
(*  <<op, form, d, a, b, params, outcome, [d], [a], [b], elements handed   *)
(*    out, numbers, closure calls, live elements, user callbacks>>         *)
(* where [x] are the observed contents of register x after the call.       *)
(* Outcome "blown": a panic was injected into one of the call's user       *)
(* callbacks (closure, clone, comparison, arithmetic, destructor, source). *)
(***************************************************************************)
EXTENDS RowCol, Json, IOUtils

VARIABLES tid, l, leaky      \* leaky: a panic happened that may leave elements behind
vars == <<ring, regs, tid, l, leaky>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
(* with debug assertions a too-long source must be refused; without them it may be *)
Refuse == IF Trace[tid].dbg = 1 THEN {TRUE} ELSE {TRUE, FALSE}

Init == /\ tid \in 1..Len(Trace)
        /\ l = 1
        /\ ring = [sym |-> Trace[tid].m = "sym", p |-> Trace[tid].p]
        /\ regs = [i \in 1..NR |-> <<>>]
        /\ leaky = FALSE

Ev == Trace[tid].ev[l]
Reg(i) == IF i = 0 THEN <<>> ELSE regs[i]

SameReg(x, o) == IF x = <<>> THEN o = <<>>
                 ELSE o # <<>> /\ o[1] = x[1] /\ o[2] = x[2] /\ o[3] = x[3] /\ SameVals(x[4], o[4])

RECURSIVE CountAll(_, _)
CountAll(r, i) == IF i = 0 THEN 0 ELSE Count(r[i]) + CountAll(r, i - 1)

LiveOK == IF Trace[tid].t = "cp" THEN Ev[14] = 0
          ELSE IF leaky' THEN Ev[14] >= CountAll(regs', NR) ELSE Ev[14] = CountAll(regs', NR)

RegsSeen == /\ Ev[3] > 0 => SameReg(regs'[Ev[3]], Ev[8]) = TRUE
            /\ Ev[4] > 0 => SameReg(regs'[Ev[4]], Ev[9]) = TRUE
            /\ Ev[5] > 0 => SameReg(regs'[Ev[5]], Ev[10]) = TRUE

Call ==
  /\ Ev[1] # "end"
  /\ Ev[7] # "blown"
  /\ \E refuse \in (IF Ev[1] = "vcolx" THEN Refuse ELSE {TRUE}) :
     LET op == Ev[1]
         x == Eff(op, Ev[2], Ev[6], Reg(Ev[4]), Reg(Ev[5]), refuse)
     IN /\ Ev[7] = x.out
        /\ x.out = "ok" => Admits(op, Ev[2], Ev[6], Reg(Ev[4]), x, Ev[11], Ev[12], Ev[13], Ev[8]) = TRUE
           \* (= TRUE: evaluated as a value, not unfolded into an action)
        /\ regs' = After(x, Ev[3], Ev[4], Ev[5], Ev[8], op)
        /\ leaky' = (leaky \/ (x.out = "panic" /\ op = "vcolx" /\ Ev[6][2] > Ev[6][1]))
  /\ RegsSeen
  /\ LiveOK

(* A user callback panicked inside the call: by-value operands are gone, by-reference operands are as
   they were, an operand assigned in place has its old shape and some elements, nothing was stored. *)
SomeElements(A, o) == WithE(A, [k \in 1..Len(E(A)) |-> IF Sym THEN ValOfObs(o[4][k]) ELSE o[4][k]])
Fault ==
  /\ Ev[1] # "end" /\ Ev[7] = "blown"
  /\ LET op == Ev[1]  d == Ev[3]  a == Ev[4]  b == Ev[5]
         x == Eff(op, Ev[2], Ev[6], Reg(a), Reg(b), TRUE)
         r1 == IF a > 0 /\ x.a # <<>>
               THEN [regs EXCEPT ![a] = IF x.a = Consumed THEN <<>> ELSE SomeElements(regs[a], Ev[9])] ELSE regs
         r2 == IF b > 0 /\ x.b # <<>> THEN [r1 EXCEPT ![b] = <<>>] ELSE r1
         \* a temporary may still be destroyed after the result has been stored
         r3 == IF d > 0 /\ x.d # <<>> /\ x.out = "ok" THEN [r2 EXCEPT ![d] = x.d[1]] ELSE r2
     IN regs' \in {r2, r3}
  /\ leaky' = TRUE
  /\ RegsSeen
  /\ LiveOK

(* everything is dropped at the end *)
End ==
  /\ Ev[1] = "end"
  /\ Ev[12][1] = 0                     \* no double drop, no garbage drop, no use of a dead element
  /\ leaky \/ Ev[14] = 0               \* and nothing left behind
  /\ UNCHANGED <<regs, leaky>>

Step == /\ l <= Len(Trace[tid].ev)
        /\ Call \/ Fault \/ End
        /\ l' = l + 1 /\ UNCHANGED <<tid, ring>>
Done == l > Len(Trace[tid].ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
