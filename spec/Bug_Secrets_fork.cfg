SPECIFICATION Spec
CONSTANTS
  MAXT = 4
  MAXH = 5
  SRC = "fork"
  BLOCK = 2
  RECORD = FALSE
INVARIANTS Fresh
CHECK_DEADLOCK FALSE
