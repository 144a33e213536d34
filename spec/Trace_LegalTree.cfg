SPECIFICATION Spec
CONSTANT Items <- TraceItems
CONSTANT Trace <- TheTrace
INVARIANT Deterministic C17 Alike Conforms Accepted
CHECK_DEADLOCK FALSE
