SPECIFICATION Spec
CONSTANTS
  REKEY = 224
  MAXGARB = 4095
  TERM = 16
  KEYLEN = 64
  LENB = 3
  HDR = 1
  TAG = 16
  LIMIT = 4000014
  MAXCONTENT = 16777215
  MAXSEALED = 5
  MAXOPEN = 0
  ROLES2 = {"I", "R"}
  MAGICS2 = {1}
  REFB = FALSE
  GARBS = {7, 4096}
  DECOYS <- DecoysSmall
  SLACKS <- SlacksSmall
  BULKS = {}
  SIZES = {0}
  MUTS = {"none", "flip"}
  HONEST = FALSE
  DEPTH = 0
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
