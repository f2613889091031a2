SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Nx = {3, 4}
 Ny = {1, 2}
 CBins = {0, 1, 2}
 Radii = {2, 3}
 Levels = {0, 1, 2}
INVARIANTS LayersOnceUpwards EdgesEnclose AllLayers MirrorMirrors SomethingIsFull PeriodicHasMore ScanIsLongest StretchesPartition Equivariant
