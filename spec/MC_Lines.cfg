SPECIFICATION Spec
CONSTANTS NX = 2 NY = 2 Us = {1} Steps = 3
INVARIANTS WholeGrid MassKept EmptyKept RoundTrip
CHECK_DEADLOCK FALSE
