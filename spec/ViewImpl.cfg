SPECIFICATION Spec
CONSTANTS MaxN = 5
 Word = 16
 Variant = "clamp"
INVARIANTS NoFault InOrder Once
PROPERTY Refines
