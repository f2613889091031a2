SPECIFICATION Spec
CONSTANTS
  Sizes = {3, 4, 5, 6, 7, 8, 9, 10}
  Far = 3
  Origins = {0, 3, 5}
  MaxSteps = 1
  Gen = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Exact Right
PROPERTY Closest
