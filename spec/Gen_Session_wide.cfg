SPECIFICATION GenSpec
CONSTANTS
  REKEY = 224
  MAXGARB = 4095
  TERM = 16
  KEYLEN = 64
  LENB = 3
  HDR = 1
  TAG = 16
  LIMIT = 4000014
  MAXCONTENT = 16777215
  MAXSEALED = 4
  MAXOPEN = 12
  ROLES2 = {"I", "R"}
  MAGICS2 = {1, 2}
  REFB = TRUE
  GARBS = {0, 7, 4095}
  DECOYS <- DecoysReal
  SLACKS <- SlacksReal
  BULKS = {5, 224}
  SIZES = {0, 1, 300}
  MUTS = {"none", "flip", "short", "trunc", "ext"}
  HONEST = FALSE
  DEPTH = 16
CHECK_DEADLOCK FALSE
