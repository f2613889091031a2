SPECIFICATION Spec
CONSTANTS Numbers = {0, 1, 2} Groups_ = {1, 2} Runs = 1
INVARIANTS NoLoss AsSpecified InPlaceSame OthersUntouched
CHECK_DEADLOCK FALSE
