SPECIFICATION Spec
CONSTANT Decls <- TheDecls
CONSTANT Deep = FALSE
INVARIANT Deterministic C14 EmitP
CHECK_DEADLOCK FALSE
