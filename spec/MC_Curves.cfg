SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLines = 3
 Width = 3
 Times = {0, 1}
 Radii = {1, 3}
INVARIANTS RoundTrip NotesIgnored Complete SyncLaw
