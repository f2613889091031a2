SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Nx = {1, 2}
 Ny = {1, 2}
 Masses = {0, 3}
 Others = 1
 Offsets = {0, 1, 2, 3, 4}
INVARIANTS BlocksConserve BlockOfOne MeanBetween FineOfOne SymmetricWindows Contains Smallest MassOfAll MeanOfOne OrderIsNothing
