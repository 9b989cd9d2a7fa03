SPECIFICATION Spec
CONSTANTS
  REKEY = 4
  MAXGARB = 3
  TERM = 2
  KEYLEN = 5
  LENB = 2
  HDR = 1
  TAG = 1
  LIMIT = 3
  MAXCONTENT = 3
  BUF = 3
  OWN = {0}
  OWNDECOYS <- OwnDecoysNone
  GARBAGES = {1}
  SIZES = {0, 3}
  NPKT = 3
  FIRST = {"g"}
  LATER = {"g", "e"}
  KEYS = {"ok", "v1"}
  ENDS = {"silence", "eof", "TimedOut"}
  CUTS = FALSE
  WERRS = FALSE
  CANCEL = FALSE
  GEN = FALSE
  AfterFailure <- GoOn
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
