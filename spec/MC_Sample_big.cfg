SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Reach = 38
 Sizes = {10, 45, 90, 180, 360, 720}
 Nx = {3, 4}
 Ny = {3}
 Levels = {0, 2}
INVARIANTS InCircle QuarterTurn MirrorAngle Ordered OneInterval TopPasses HigherCutPassesLess NotNegative RigidIsFree TransposeIsSame
