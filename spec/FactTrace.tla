----------------------------- MODULE FactTrace -----------------------------
(* Judges recorded observations of calls that take and leave no container state. *)
EXTENDS Render, Approx, Layout, Literals, Norm, Shapes, Floats, Json, IOUtils

VARIABLES tid, l
vars == <<tid, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == tid \in 1..Len(Trace) /\ l = 1
Ev == Trace[tid].ev[l]

OK(e) ==
  CASE e[1] \in {"mdisplay", "mdebug", "vdebug", "mdebuga", "vdebuga"} -> RenderOK(e[1], e[2], e[3], e[4], e[5], e[6], e[7])
    [] e[1] \in {"relative", "ulps", "aeq", "defaults"} -> ApproxOK(e)
    [] e[1] \in {"size", "alloc"} -> LayoutOK(e)
    [] e[1] \in {"alias", "vlit", "mlit"} -> LiteralOK(e)
    [] e[1] \in {"norm", "unit"} -> NormOK(e)
    [] e[1] \in {"fmm", "fmv", "fdot", "fcross", "fadd", "fsub", "fmul", "fdiv", "fneg", "fsum", "fiszero", "feq", "fnorm", "funit", "fdet", "finv",
                 "hadd", "hsub", "hmul", "hdiv", "hneg", "hmap"} -> FloatOK(e)
    [] e[1] = "prog" -> ProgOK(e)

Step == l <= Len(Trace[tid].ev) /\ OK(Ev) /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(Trace[tid].ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
