SPECIFICATION GenSpec
CONSTANTS
  REKEY = 4
  MAXGARB = 3
  TERM = 2
  KEYLEN = 5
  LENB = 3
  HDR = 1
  TAG = 1
  LIMIT = 3
  MAXCONTENT = 3
  BUF = 2
  OWN = {0}
  OWNDECOYS <- OwnDecoysNone
  GARBAGES = {0, 1, 2, 3}
  SIZES = {0, 1, 2}
  NPKT = 3
  FIRST = {"g", "ge"}
  LATER = {"e", "ge"}
  KEYS = {"ok"}
  ENDS = {"silence", "eof"}
  CUTS = FALSE
  WERRS = FALSE
  CANCEL = TRUE
  GEN = TRUE
CHECK_DEADLOCK FALSE
