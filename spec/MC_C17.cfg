SPECIFICATION Spec
CONSTANT Items <- TheItems
CONSTANT Deep = FALSE
INVARIANT Deterministic C17 Alike Emit
CHECK_DEADLOCK FALSE
