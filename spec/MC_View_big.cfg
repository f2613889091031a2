SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Reach = 0
 Sizes = {10, 45, 90, 180, 360, 720}
 Nx = {3}
 Ny = {3}
 Levels = {0, 1, 2}
INVARIANTS ArrowsShrink BoxHoldsBins ContoursClose CrossingsBetween LinearGradient
