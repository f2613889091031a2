SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Cols = {4}
 Rows = {1}
 Values = {0, 2}
 MaxFiles = 2
 Groups = {2}
 Laws = TRUE
INVARIANTS OutputsOfGroups ConservedByCombine CombineCommutes AverageIsMean WindowSizes UniformStays Recentred MirrorSwaps
