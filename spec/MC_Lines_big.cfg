SPECIFICATION Spec
CONSTANTS NX = 3 NY = 2 Us = {1} Steps = 1
INVARIANTS WholeGrid MassKept EmptyKept RoundTrip
CHECK_DEADLOCK FALSE
