SPECIFICATION Spec
CONSTANTS
  REKEY = 4
  MAXGARB = 3
  TERM = 2
  KEYLEN = 5
  LENB = 2
  HDR = 1
  TAG = 1
  LIMIT = 3
  MAXCONTENT = 3
  BUF = 3
  OWN = {0, 1, 3, 4}
  OWNDECOYS <- OwnDecoysBig
  GARBAGES = {0, 1}
  SIZES = {0}
  NPKT = 2
  FIRST = {"g", "e", "ge", "none"}
  LATER = {"g", "e", "ge", "none"}
  KEYS = {"ok", "v1", "foreign"}
  ENDS = {"silence", "eof"}
  CUTS = TRUE
  WERRS = TRUE
  CANCEL = FALSE
  GEN = FALSE
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
