SPECIFICATION Spec
CONSTANTS
  MaxObjs = 3
  MaxOps = 3
  Cols = 3
  Gen = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Laws Grids
PROPERTY Isolated
VIEW View
