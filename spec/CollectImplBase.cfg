SPECIFICATION Spec
CONSTANTS MaxN = 4
 MaxK = 6
 Guarded = FALSE
INVARIANTS OnceAtMost NoJunk Outcome
