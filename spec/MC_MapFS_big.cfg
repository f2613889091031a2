SPECIFICATION Spec
CONSTANTS Numbers = {1, 2, 3} Groups_ = {1, 2} Runs = 2
INVARIANTS NoLoss AsSpecified InPlaceSame OthersUntouched
CHECK_DEADLOCK FALSE
