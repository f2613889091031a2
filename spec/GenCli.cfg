SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxGiven = 1
 Random = 12
 Gen = TRUE
