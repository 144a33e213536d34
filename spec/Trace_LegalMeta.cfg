SPECIFICATION Spec
CONSTANT Items <- TraceItems
CONSTANT Trace <- TheTrace
INVARIANT Deterministic C10 InOrder Conforms Accepted
CHECK_DEADLOCK FALSE
