SPECIFICATION Spec
CONSTANTS
  Sizes = {5, 6, 7, 8}
  Rows = 3
  Far = 2
  Reach = 3
  Origins = {0, 3}
  MaxSteps = 1
  Gen = FALSE
CHECK_DEADLOCK FALSE
INVARIANT Exact
