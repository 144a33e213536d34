CONSTANTS
  Spans = {2, 3, 4}
  Deep = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK Laws SpanBlind
CHECK_DEADLOCK FALSE
