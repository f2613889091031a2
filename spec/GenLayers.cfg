SPECIFICATION GenSpec
CONSTANTS
  Sizes = {5, 6, 7, 8, 9}
  Rows = 5
  Far = 3
  Reach = 2
  Origins = {0, 3, 4, 9}
  MaxSteps = 6
  Gen = TRUE
CHECK_DEADLOCK FALSE
