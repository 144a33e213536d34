SPECIFICATION Spec
CONSTANT Decls <- TheDecls
CONSTANT Deep = FALSE
INVARIANT Deterministic Fresh Nested_ Refinement C12 C15 C20 Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
