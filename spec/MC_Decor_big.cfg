SPECIFICATION Spec
CONSTANTS
  MaxCalls = 2
  MaxOdd = 3
  Gen = FALSE
  Wide = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Replayed OwnLines Fresh Asked InView LastSaved Cleared
