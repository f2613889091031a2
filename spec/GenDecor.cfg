SPECIFICATION GenSpec
CONSTANTS
  MaxCalls = 5
  MaxOdd = 2
  Gen = TRUE
  Wide = TRUE
CHECK_DEADLOCK FALSE
