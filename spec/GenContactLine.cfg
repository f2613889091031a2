SPECIFICATION GenSpec
CONSTANTS
  NX = 9
  NY = 1
  Avs = {1, 2, 3, 4}
  Origins = {0, 2, 4, 5}
  MaxMaps = 6
  Gen = TRUE
  Width = 0
  Height = 0
  Sync = 0
CHECK_DEADLOCK FALSE
