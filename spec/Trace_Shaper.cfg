SPECIFICATION TraceSpec
CONSTANTS
  MAXDECOY = 1024
  MAXHSDECOYS = 3
  MAXGARB = 4095
  IDLEMS = 20000
CHECK_DEADLOCK FALSE
POSTCONDITION Complete
VIEW Where
