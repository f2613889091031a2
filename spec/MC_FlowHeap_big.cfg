SPECIFICATION Spec
CONSTANTS
  MaxObjs = 4
  MaxOps = 4
  Cols = 3
  Gen = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Laws Grids
PROPERTY Isolated
VIEW View
