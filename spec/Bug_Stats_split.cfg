SPECIFICATION Spec
CONSTANTS
  P = 2
  OPS = 1
  SPLIT = TRUE
INVARIANTS Exact Within Young
CHECK_DEADLOCK FALSE
