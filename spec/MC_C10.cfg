SPECIFICATION Spec
CONSTANT Items <- TheItems
CONSTANT Deep = FALSE
INVARIANT Deterministic C10 InOrder Emit
CHECK_DEADLOCK FALSE
