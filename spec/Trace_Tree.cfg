SPECIFICATION TraceSpec
CONSTANT Decls <- TraceDecls
CONSTANT Trace <- TheTrace
CONSTANT CheckAt = FALSE
CONSTANT CheckSource = FALSE
INVARIANT Deterministic Fresh Nested_ C12 C13 C14 C15 C20 Conforms Accepted
CHECK_DEADLOCK FALSE
