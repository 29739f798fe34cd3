SPECIFICATION Spec
CONSTANTS MaxN = 5
 Word = 16
 Variant = "full"
PROPERTY Refines
