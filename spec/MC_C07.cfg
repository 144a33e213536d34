SPECIFICATION Spec
CONSTANT Decls <- TheDecls
CONSTANT Deep = FALSE
INVARIANT Deterministic Refinement C01 C02 C04 C05 C07 C08 Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
