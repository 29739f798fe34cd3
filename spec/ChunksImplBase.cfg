SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxChunks = 4
 MaxSize = 3
 Variant = "noturn"
PROPERTY Refines
