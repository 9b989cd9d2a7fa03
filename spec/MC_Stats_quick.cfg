SPECIFICATION Spec
CONSTANTS
  P = 2
  OPS = 1
  SPLIT = FALSE
INVARIANTS Exact Within Young
CHECK_DEADLOCK FALSE
