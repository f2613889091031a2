CONSTANTS Layers = 3
  X = 3
  H = 2
SPECIFICATION Spec
INVARIANTS Sides AreaIsPolygon Moved MirrorSwaps Additive AverageLaws
CHECK_DEADLOCK FALSE
