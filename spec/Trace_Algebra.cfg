CONSTANT Spans = {2, 3, 4}
SPECIFICATION Spec
INVARIANTS TypeOK Laws SpanBlind
CHECK_DEADLOCK FALSE
