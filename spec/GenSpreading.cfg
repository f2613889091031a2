SPECIFICATION GenSpec
CONSTANTS
  Sizes = {4, 5, 6, 7, 8, 10}
  Far = 3
  Origins = {0, 3, 4, 9}
  MaxSteps = 9
  Gen = TRUE
CHECK_DEADLOCK FALSE
