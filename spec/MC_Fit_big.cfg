SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxPoints = 5
 Xs = {0, 1, 2}
 Ys = {0, 1, 3}
INVARIANTS Normal Recovered
