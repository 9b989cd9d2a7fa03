SPECIFICATION Spec
CONSTANTS
  MAXT = 5
  MAXH = 6
  SRC = "os"
  BLOCK = 2
  RECORD = FALSE
INVARIANTS Fresh
CHECK_DEADLOCK FALSE
