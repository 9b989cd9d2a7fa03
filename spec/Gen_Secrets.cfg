SPECIFICATION Spec
CONSTANTS
  MAXT = 6
  MAXH = 9
  SRC = "block"
  BLOCK = 2
  RECORD = TRUE
INVARIANTS GenInv
CHECK_DEADLOCK FALSE
