SPECIFICATION GenSpec
CONSTANTS
  MaxObjs = 6
  MaxOps = 12
  Cols = 5
  Gen = TRUE
CHECK_DEADLOCK FALSE
