SPECIFICATION GenSpec
CONSTANTS
  REKEY = 4
  MAXGARB = 3
  TERM = 2
  KEYLEN = 5
  LENB = 3
  HDR = 1
  TAG = 1
  LIMIT = 3
  MAXCONTENT = 3
  BUF = 2
  OWN = {0, 3, 4}
  OWNDECOYS <- OwnDecoysSome
  GARBAGES = {0, 1, 3, 4}
  SIZES = {0, 2}
  NPKT = 2
  FIRST = {"g", "e", "ge", "none"}
  LATER = {"g", "e", "ge", "none"}
  KEYS = {"ok", "v1", "foreign"}
  ENDS = {"silence", "eof", "TimedOut", "ConnectionReset"}
  CUTS = TRUE
  WERRS = FALSE
  CANCEL = FALSE
  GEN = TRUE
CHECK_DEADLOCK FALSE
