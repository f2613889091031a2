SPECIFICATION Spec
CONSTANTS
  MaxCalls = 3
  MaxOdd = 2
  Gen = FALSE
  Wide = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Replayed OwnLines Fresh Asked InView LastSaved Cleared
