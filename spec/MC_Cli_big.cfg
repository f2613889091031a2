SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxGiven = 3
 Random = 0
 Gen = FALSE
INVARIANTS OnceEach OnlyGiven Effective TableOk
