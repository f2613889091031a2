SPECIFICATION Spec
CONSTANTS
  Sizes = {5, 6}
  Rows = 3
  Far = 1
  Reach = 1
  Origins = {0, 3}
  MaxSteps = 1
  Gen = FALSE
CHECK_DEADLOCK FALSE
INVARIANT Exact
