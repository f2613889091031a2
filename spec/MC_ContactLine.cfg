SPECIFICATION Spec
CONSTANTS
  NX = 3
  NY = 1
  Avs = {1, 2, 3}
  Origins = {0, 1, 2}
  MaxMaps = 4
  Gen = FALSE
  Width = 0
  Height = 0
  Sync = 0
CHECK_DEADLOCK FALSE
INVARIANTS WindowsAre EachOnce Follows Centred AtMean Together Ordered
