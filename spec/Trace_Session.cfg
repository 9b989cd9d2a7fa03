SPECIFICATION TraceSpec
CONSTANTS
  REKEY = 224
  MAXGARB = 4095
  TERM = 16
  KEYLEN = 64
  LENB = 3
  HDR = 1
  TAG = 16
  LIMIT = 4000014
  MAXCONTENT = 16777215
CHECK_DEADLOCK FALSE
POSTCONDITION Complete
VIEW Where
