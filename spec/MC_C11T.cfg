SPECIFICATION Spec
CONSTANT Decls <- TheDecls
CONSTANT Deep = FALSE
INVARIANT Deterministic Refinement C12 C14 C15 Emit EmitP
CHECK_DEADLOCK FALSE
