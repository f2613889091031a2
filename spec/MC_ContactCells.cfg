SPECIFICATION CellSpec
CONSTANTS
  NX = 3
  NY = 3
  Avs = {1}
  Origins = {0}
  MaxMaps = 0
  Gen = FALSE
  Width = 2
  Height = 2
  Sync = 2
CHECK_DEADLOCK FALSE
INVARIANTS MirrorLaw Wider HoldsEdges Whole
