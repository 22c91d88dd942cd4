SPECIFICATION Spec
CONSTANTS
  Starts = 1
  Years = 2
  Spans = 1
  Scripts = TRUE
INVARIANTS
  Formula
  Inverse
  Weekdays
  GridRight
CHECK_DEADLOCK FALSE
