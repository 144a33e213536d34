SPECIFICATION Spec
CONSTANT Decls <- TheDecls
CONSTANT Deep = FALSE
INVARIANT Deterministic Fresh Nested_ Refinement C12 C13 C15 C16Plain C16Names Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
