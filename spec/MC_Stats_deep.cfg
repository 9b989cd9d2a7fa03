SPECIFICATION Spec
CONSTANTS
  P = 2
  OPS = 2
  SPLIT = FALSE
INVARIANTS Exact Within Young
CHECK_DEADLOCK FALSE
