SPECIFICATION Spec
CONSTANTS
  MAXT = 4
  MAXH = 5
  SRC = "first"
  BLOCK = 2
  RECORD = FALSE
INVARIANTS Fresh
CHECK_DEADLOCK FALSE
