SPECIFICATION TraceSpec
CONSTANT Decls <- TraceDecls
CONSTANT CheckAt = FALSE
CONSTANT CheckMsg = FALSE
INVARIANT Conforms Deterministic Refinement C01 C02 C04 C05 C07 C08 Accepted
CHECK_DEADLOCK FALSE
