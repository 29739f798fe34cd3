SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxChunks = 4
 MaxSize = 3
 Variant = "turn"
INVARIANTS NeverShort Once Complete
PROPERTIES Refines Answers
