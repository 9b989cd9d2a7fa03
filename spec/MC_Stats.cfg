SPECIFICATION Spec
CONSTANTS
  P = 3
  OPS = 1
  SPLIT = FALSE
INVARIANTS Exact Within Young
CHECK_DEADLOCK FALSE
