SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Cols = {2, 3}
 Rows = {1, 2}
 Values = {0, 2}
 MaxFiles = 2
 Groups = {1, 2}
 Laws = TRUE
INVARIANTS OutputsOfGroups ConservedByCombine CombineCommutes AverageIsMean WindowSizes UniformStays Recentred MirrorSwaps
