SPECIFICATION Spec
CONSTANTS
  MAXDECOY = 1
  MAXHSDECOYS = 3
  MAXGARB = 4095
  IDLEMS = 20000
  N = 3
  TICKS = 2
  MINCALLS = 0
  BUG = "nobreak"
  RECORD = FALSE
INVARIANTS Contract OneWriter Delivered ReaderFree
PROPERTIES Answered Freed HasRead
CHECK_DEADLOCK FALSE
