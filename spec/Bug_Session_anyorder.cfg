SPECIFICATION Spec
CONSTANTS
  REKEY = 2
  MAXGARB = 1
  TERM = 2
  KEYLEN = 2
  LENB = 1
  HDR = 1
  TAG = 2
  LIMIT = 2
  MAXCONTENT = 3
  MAXSEALED = 4
  MAXOPEN = 2
  ROLES2 = {"I", "R"}
  MAGICS2 = {1, 2}
  REFB = FALSE
  GARBS = {1, 2}
  DECOYS <- DecoysSmall
  SLACKS <- SlacksSmall
  BULKS = {}
  SIZES = {0, 4}
  MUTS = {"none", "flip", "short"}
  HONEST = FALSE
  DEPTH = 0
  Authentic <- AuthAnyOrder
VIEW View
INVARIANTS AcceptedPrefix HandshakeAgreement NoStranger NonceUnique DecoysBefore GarbageBound Consecutive CanOpenNext
PROPERTY Independent
CHECK_DEADLOCK FALSE
