SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Nx = {1, 2, 4}
 Ny = {1, 2}
 Masses = {0, 1, 3}
 Others = 0
 Offsets = {1}
INVARIANTS BlocksConserve BlockOfOne MeanBetween FineOfOne SymmetricWindows Contains Smallest MassOfAll MeanOfOne OrderIsNothing
