SPECIFICATION Spec
CONSTANTS
  REKEY = 4
  MAXGARB = 3
  TERM = 2
  KEYLEN = 5
  LENB = 2
  HDR = 1
  TAG = 1
  LIMIT = 3
  MAXCONTENT = 3
  BUF = 3
  OWN = {0}
  OWNDECOYS <- OwnDecoysNone
  GARBAGES = {0, 2, 3, 4}
  SIZES = {0, 3}
  NPKT = 2
  FIRST = {"g", "e", "ge", "none"}
  LATER = {"g", "e", "ge", "none"}
  KEYS = {"ok", "v1", "foreign"}
  ENDS = {"silence", "eof", "TimedOut"}
  CUTS = TRUE
  WERRS = FALSE
  CANCEL = FALSE
  GEN = FALSE
  Skips <- AlwaysSkips
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
