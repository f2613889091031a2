SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxGiven = 2
 Random = 300
 Gen = TRUE
