SPECIFICATION Spec
CONSTANTS MaxN = 4
 MaxK = 6
 Guarded = TRUE
INVARIANTS OnceAtMost NoJunk Outcome
PROPERTY Ends
