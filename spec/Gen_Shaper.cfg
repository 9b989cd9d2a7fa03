SPECIFICATION Spec
CONSTANTS
  MAXDECOY = 1
  MAXHSDECOYS = 3
  MAXGARB = 4095
  IDLEMS = 20000
  N = 4
  TICKS = 3
  MINCALLS = 2
  BUG = "none"
  RECORD = TRUE
INVARIANTS GenInv
CHECK_DEADLOCK FALSE
